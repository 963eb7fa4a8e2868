BUGS = {}


def B(id, prop, edits, scm, want, needs, breaks, pre='', timeout=60):
    BUGS[id] = dict(prop=prop, edits=edits, scm=scm, want=want, needs=needs, breaks=breaks, pre=pre, timeout=timeout)


B('p27-convert-again-on-reentry', 'P27',
  [('library/srfi-39.ss', '(dynamic-wind (lambda () (install-dynamic-bindings! (append inner outer)))', '(dynamic-wind (lambda () (install-dynamic-bindings! (append (inner) outer)))'),
   ('library/srfi-39.ss', '''            (map (lambda (parameter value)
                   (cons parameter (parameter value 'convert)))
                 parameters
                 values)))''', '''            (lambda ()
              (map (lambda (parameter value)
                     (cons parameter (parameter value 'convert)))
                   parameters
                   values))))''')],
  '''
(import (scheme base) (scheme write))
(define converted 0)
(define p (make-parameter 0 (lambda (x) (set! converted (+ converted 1)) (+ x converted))))
(define k #f)
(define n 0)
(define trace '())
(let ()
  (parameterize ((p 10))
    (call-with-current-continuation (lambda (c) (set! k c)))
    (set! trace (cons (p) trace)))
  (set! n (+ n 1))
  (if (< n 3) (k #f)))
(write (list converted (reverse trace)))
''', '(2 (12 12 12))',
  'a continuation captured inside a parameterize body, re-entered after the body was left; a parameter with a converter', 'each re-entry applies the converter again and gives the parameter another value')

B('p18-guard-reraise-not-continuable', 'P18',
  [('library/srfi-34.ss', '(raise-continuable condition)))\n                                                    clause', '(raise condition)))\n                                                    clause')],
  '''
(import (scheme base) (scheme write))
(define r
  (call-with-current-continuation
    (lambda (k)
      (with-exception-handler
        (lambda (c) (if (pair? c) (k (list 'escaped c)) (* c 10)))
        (lambda ()
          (guard (outer (#t (list 'not-continuable outer)))
            (with-exception-handler
              (lambda (c) (* c 10))
              (lambda ()
                (+ 1 (guard (e ((string? e) 0))
                       (raise-continuable 5)))))))))))
(write r)
''', '51',
  'raise-continuable inside a guard none of whose clauses match, with an outer handler that returns',
  'a condition raised continuably and re-raised by guard no longer lets the outer handler return to the raise point')

B('p26-force-overwrites-settled', 'P26',
  [('library/srfi-45.ss', '(if (not (promise-done? promise))\n                      (promise-update! promise* promise))', '(promise-update! promise* promise)')],
  '''
(import (scheme base) (scheme lazy) (scheme write))
(define n 0)
(define p
  (delay (begin (set! n (+ n 1))
                (let ((mine n))
                  (if (< n 3) (force p))
                  (list 'value mine)))))
(define a (force p))
(define b (force p))
(write (list a b))
''', '''((value 3) (value 3))''',
  'a promise that forces itself while being forced (reentrancy)', 'the outer computation of a re-entrantly forced promise overwrites the first value')

B('p19-free-vars-in-vector-template', 'P19',
  [('library/srfi-149.ss', '''                   ((vector? x) (lp (vector->list x) free))
                   (else free))))''', '''                   (else free))))''')],
  '''
(import (scheme base) (scheme write))
(define-syntax pairs->vectors
  (syntax-rules ()
    ((_ (a b) ...) '(#(b a) ...))))
(write (pairs->vectors (1 2) (3 4)))
''', '(#(2 1) #(4 3))',
  'an ellipsis template that is a vector holding the pattern variables', 'the variables of a vector sub-template under an ellipsis are not found and the macro definition fails')

B('p16-begin-in-tail-position', 'P16',
  [('src/kernel/generator.cpp', '''                                  bound_variables,
                                  continuation,
                                  tail)));''', '''                                  bound_variables,
                                  continuation,
                                  tail and cddr(form).is<null>())));''')],
  '''
(import (scheme base) (scheme write))
(define count 0)
(define (run n)
  (if (= n 0)
      'done
      (begin (set! count (+ count 1))
             (set! count (- count 1))
             (run (- n 1)))))
(write (run 600000))
''', 'done',
  'a loop whose tail call is the last of three or more expressions of a begin (or of a clause of cond, case, when, ...)', 'the tail call pushes a frame that stays, so the loop runs in space linear in its iterations',
  pre='ulimit -v 150000')

B('p22-trigger-keeps-growing', 'P22',
  [('src/kernel/collector.cpp', 'capacity = std::max(capacity, size + (size / 2));', 'capacity = std::max(capacity, capacity + size / 2);')],
  '''
(import (scheme base) (scheme write))
(define live (make-vector 20000 0))
(define (fill i) (if (< i 20000) (begin (vector-set! live i (list i i i i)) (fill (+ i 1)))))
(fill 0)
(define (spin n x) (if (= n 0) 'done (spin (- n 1) (list n n n n))))
(write (spin 4000000 '()))
''', 'done',
  'a long run with a steady live set of some megabytes', 'the trigger of the next collection never comes down to the live size and rises above it, so memory exceeds the live data by a growing factor',
  pre='ulimit -v 150000')

B('p11-lset-xor-common', 'P11',
  [('library/srfi-1.ss', '''(cond ((null? a-b) (lset-difference x=? b a))
                             ((null? a^b) (append b a))''', '''(cond ((null? a-b) b)
                             ((null? a^b) (append b a))''')],
  '''
(import (scheme base) (srfi 1) (scheme write))
(write (lset-xor eq? '(a b c) '(b a)))
(write (lset-xor eq? '(a b) '(c a b)))
''', '(c)(c)', 'lset-xor where one list is a subset of another', 'elements common to both lists stay in the exclusive or')

B('p11-delete-duplicates-in-place', 'P11',
  [('library/srfi-1.ss', '(ys (recur (delete x xs x=?))))', '(ys (recur (delete! x xs x=?))))')],
  '''
(import (scheme base) (srfi 1) (scheme write))
(define xs (list 1 2 1 3 2 1))
(write (delete-duplicates xs))
(write xs)
''', '(1 2 3)(1 2 1 3 2 1)', 'observing the argument list after delete-duplicates has removed something', 'delete-duplicates alters its argument')

B('p23-pointer-set-max', 'P23',
  [('include/meevax/memory/pointer_set.hpp', '''        i_min = std::min(i_min, i);
        i_max = std::max(i_max, i);
        data[i] = new subset();''', '''        if (i < i_min)
        {
          i_min = i;
        }
        else
        {
          i_max = std::max(i_max, i);
        }
        data[i] = new subset();''')],
  '''
(import (scheme base) (scheme write))
(write 'ok)
''', 'ok', 'keys inserted in descending order of their upper part', 'the first (or each new smallest) upper index does not raise i_max, so iteration misses it')

B('p24-rename-one-after-the-other', 'P24',
  [('src/kernel/environment.cpp', 'if (let const& renaming = assq(car(identity), renamings); renaming != f)', 'if (let const& renaming = assq(car(identity), renamings); renaming != f and assq(cadr(renaming), cdr(renamings)) == f)')],
  '''
(define-library (t a) (import (scheme base)) (export x y z) (begin (define x 1) (define y 2) (define z 3)))
(import (scheme base) (scheme write) (rename (t a) (x y) (y w)))
(write (list y w z))
''', '(1 2 3)', 'a rename import set in which the new name of one pair is the old name of a later pair', 'the first of the two is not renamed')

B('p24-except-in-prefix', 'P24',
  [('src/kernel/environment.cpp', 'return memq(car(identity), identifiers) == f;', 'return memq(car(identity), identifiers) == f or not car(identity).is<symbol>() or assq(car(identity), list(identity)) != f and car(identity).as<symbol>().name.find(\':\') != std::string::npos;')],
  '''
(define-library (t a) (import (scheme base)) (export x y) (begin (define x 1) (define y 2)))
(define-library (t b) (import (scheme base) (except (prefix (t a) a:) a:y)) (export get) (begin (define a:y 9) (define (get) (list a:x a:y))))
(import (scheme base) (scheme write) (t b) (t a))
(write (list (get) y))
''', '((1 9) 2)', 'except around a prefix whose prefix contains a colon', 'the excepted name stays')

B('p25-and-of-nots', 'P25',
  [('src/kernel/conditional_expand.cpp', 'return not conditional_expand_test(cadr(requirement));', 'return std::ranges::none_of(cdr(requirement) | as_proper_list, [](let const& x) { return x.is<pair>() ? not conditional_expand_test(car(x)) and conditional_expand_test(x) : conditional_expand_test(x); });')],
  '''
(import (scheme base) (scheme write))
(cond-expand ((not (or foo r7rs)) (write 'wrong)) (else (write 'right)))
(cond-expand ((not (not r7rs)) (write 'right)) (else (write 'wrong)))
''', 'rightright', 'a compound requirement under not', 'it is not evaluated as a requirement')

B('p28-type-by-equality', 'P28',
  [('library/srfi-9.ss', '''             (and (record? thing)
                  (eq? (record-type thing)
                       type))))''', '''             (and (record? thing)
                  (or (eq? (record-type thing)
                           type)
                      (equal? (record-type-field-tags (record-type thing))
                              (record-type-field-tags type))
                      #f)
                  (equal? (record-type-name (record-type thing))
                          (record-type-name type)))))''')],
  '''
(import (scheme base) (scheme write))
(define (make-type)
  (define-record-type point (make-point x) point? (x point-x))
  (list make-point point?))
(define a (make-type))
(define b (make-type))
(define (f) (let () (define-record-type point (make-point x y) point? (x point-x) (y point-y)) ((cadr a) (make-point 1 2))))
(write (list ((cadr a) ((car a) 1)) ((cadr b) ((car a) 1)) (f)))
''', '(#t #f #f)', 'two record types with the same name and the same fields, as made by evaluating one definition twice', 'the predicate of one is true of the instances of the other')

B('p28-constructor-order', 'P28',
  [('library/srfi-9.ss', '''                   (let ((new (make-record (+ size 1))))
                     (record-set! new 0 type)
                     (for-each (lambda (arg i)
                                 (record-set! new i arg))
                               args
                               indexes)
                     new)''', '''                   (let ((new (make-record (+ size 1))))
                     (record-set! new 0 type)
                     (for-each (lambda (arg i)
                                 (record-set! new i arg))
                               args
                               (if (= size arg-count)
                                   (record-type-field-indexes type)
                                   indexes))
                     new)'''),
   ('library/srfi-9.ss', '''         (define (record-constructor type tags)''', '''         (define (record-type-field-indexes type)
           (map (lambda (tag) (field-index type tag))
                (record-type-field-tags type)))

         (define (record-constructor type tags)''')],
  '''
(import (scheme base) (scheme write))
(define-record-type point (make-point y x) point? (x point-x) (y point-y set-point-y!))
(define p (make-point 1 2))
(write (list (point-x p) (point-y p)))
''', '(2 1)', 'a constructor that names all fields in another order than the field specs', 'arguments go to the fields in the order of the field specs')
