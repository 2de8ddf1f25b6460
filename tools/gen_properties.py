#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as data here so wording is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("C01","Persistent vector behaves as an immutable sequence",
 "Every persistent-vector operation (construction, push/pop at both ends, lookup, update, insert, remove, concatenation, splitting, take/skip, map/filter/sort/chunk/zip/fold, iteration) returns exactly what the same operation on a plain list would return, with matching length. This holds for every size and every earlier history of operations that produced the operands, however long: the structure does not degenerate with the number of operations (tree paths stay short, nothing overflows the stack).",
 ["histories","inputs"],"for every finite sequence of vector operations over any pool of previously produced versions, including sizes that cross every inline/leaf/branch capacity boundary",
 "The existing tests use a few short vectors and never combine front pushes, concatenations of different heights, splits and pops; the representation only degenerates after such histories.",
 ["src/pvec/core.rs","src/pvec/tree.rs","src/pvec/node.rs","src/pvec/iter.rs","src/pvec/traits.rs"],
 [("relaxed radix tree with size tables, head and tail buffers","src/pvec/tree.rs"),("inline/tree representation switch","src/pvec/core.rs")],
 ["public PersistentVector API compared with Vec after every step"],
 [("root/head/tail/len/height","element storage of one version","src/pvec/tree.rs RRBTree")])

p("C02","Old persistent-vector versions never change",
 "Once a persistent vector value exists, its length, elements, order and iteration stay the same forever, whatever operations are applied to it, to versions derived from it or to versions it shares structure with. This also holds while other threads derive new versions from it concurrently, and when user code called by an operation panics half way.",
 ["histories","schedules","fault_sequences"],"for every tree of versions derived from one another, every schedule of threads sharing them, and every point at which a user-supplied clone or closure panics",
 "Tests check at most one parent version right after one operation; persistence is about every ancestor after every later history and concurrent use.",
 ["src/pvec/core.rs","src/pvec/tree.rs","src/pvec/node.rs"],
 [("copy-on-write nodes behind shared pointers","src/pvec/tree.rs")],
 ["re-reading retained versions through the public API after later operations, from several threads"])

p("C03","Persistent-vector equality, order and hash depend only on contents",
 "Two persistent vectors with the same elements in the same order are equal, compare as Equal and hash alike no matter how each was built; vectors with different contents are unequal, and ordering is the lexicographic order of their elements.",
 ["histories","inputs"],"for every pair of vectors and every pair of construction histories leading to them",
 "Tests compare vectors that happen to be built by the same route; equality must be independent of all routes.",
 ["src/pvec/core.rs","src/pvec/tree.rs","src/pvec/node.rs"],
 [("equality, ordering and hashing of vectors","src/pvec/core.rs PersistentVector")],
 ["==, cmp, partial_cmp and Hash of vectors built along different histories"])

p("C04","Persistent vector conserves elements and shares structure",
 "Over any history, every element clone a persistent vector makes is dropped exactly once when the last version holding it goes away: nothing leaks and nothing is dropped twice, also when user code panics. Single-element updates, pushes, pops, splits and concatenations of large vectors copy only a bounded number of elements, independent of the vector's length.",
 ["histories","fault_sequences"],"for every operation history over versions, every drop order of the versions and every panic point in element cloning",
 "No existing test counts clones or drops; leaks, double drops and loss of structural sharing are invisible to value assertions.",
 ["src/pvec/core.rs","src/pvec/tree.rs","src/pvec/node.rs"],
 [("Arc-shared nodes, bounded head/tail/leaf buffers","src/pvec/tree.rs")],
 ["instrumented element type counting constructions, clones and drops"])

p("C05","Functor laws hold for every mappable container",
 "For every container that can be mapped (optional, either, validated, choice, identity, writer, persistent vector, numeric/first/last/min/max wrappers, standard Option, Result and Vec, boxes, state, reader, continuation and IO computations), mapping the identity changes nothing, mapping a composition equals mapping twice, the shape and the error/log/left side are kept, and the function is applied exactly once per contained value.",
 ["inputs"],"for all container values (including empty and error cases) and all pure functions",
 "Unit tests check the laws on one or two hand-picked values and functions per type.",
 ["src/traits/functor.rs","src/datatypes/maybe.rs","src/datatypes/either.rs","src/datatypes/validated/traits.rs","src/datatypes/choice.rs","src/datatypes/id.rs","src/datatypes/writer.rs","src/datatypes/wrapper/","src/pvec/traits.rs"],
 [("Functor implementations","src/traits/functor.rs and each datatype")],
 ["fmap/fmap_owned/replace/void results and call logs of the mapped function"])

p("C06","Applicative laws hold for every applicative container",
 "For every applicative container, applying a pure identity function changes nothing, pure of a function applied to pure of a value is pure of the result, interchange and composition hold, and the two- and three-argument lifting operations and the sequencing helpers give the same outcome as applying the curried function step by step (for multi-valued choices: the same primary and the same alternatives, possibly listed in another order).",
 ["inputs"],"for all container values (including empty, error and multi-value cases) and all pure functions",
 "Tests check isolated identity/homomorphism examples; composition, interchange and lift consistency over mixed success/error operands are not covered.",
 ["src/traits/applicative.rs","src/datatypes/maybe.rs","src/datatypes/either.rs","src/datatypes/validated/traits.rs","src/datatypes/choice.rs","src/datatypes/id.rs","src/datatypes/writer.rs"],
 [("Applicative implementations","src/traits/applicative.rs and each datatype")],
 ["apply, lift2, lift3, sequence_left, sequence_right, ap2 results"])

p("C07","Monad laws hold for every monadic container",
 "For every monadic container, left identity, right identity and associativity of bind hold, join equals binding the identity, and binding an empty or failed value never calls the continuation and keeps the failure.",
 ["inputs"],"for all container values, all continuations (including ones that fail or return several or no results for some inputs)",
 "Tests use continuations that always succeed; associativity breaks only for continuations that fail or branch on part of the values.",
 ["src/traits/monad.rs","src/datatypes/maybe.rs","src/datatypes/either.rs","src/datatypes/validated/traits.rs","src/datatypes/choice.rs","src/datatypes/id.rs","src/datatypes/writer.rs"],
 [("Monad implementations","src/traits/monad.rs and each datatype")],
 ["bind/bind_owned/join/join_owned results and continuation call logs"])

p("C08","Consuming and borrowing variants of an operation agree",
 "Every operation offered both in a borrowing and in a consuming form (map, apply, bind, join, lift, combine, choose, recover, convert and the like) produces the same result in both forms, and the borrowing form leaves its operands unchanged.",
 ["inputs"],"for all operand values and functions of every datatype offering both forms",
 "The consuming variants are separate hand-written code paths which tests touch on single values.",
 ["src/traits/","src/datatypes/"],
 [("paired *_owned implementations","each datatype's trait impls")],
 ["results of both variants on equal operands, operand equality before and after"])

p("C09","Semigroup and monoid laws hold, and bulk combination agrees",
 "Combining is associative for every combinable type; where a type has an identity element (numeric sums and products, first and last, strings, vectors, maps, sets, options, persistent vectors, choices, logs), combining with it on either side changes nothing. Combining many values at once, repeating a value n times and folding give exactly what pairwise combination in order gives, on empty, single and long inputs.",
 ["inputs"],"for all operands and all lists of operands of every combinable type; min and max are covered within their documented limit that the identity is the type's default value",
 "Tests check three fixed operands per type; repeat/concat helpers are tested for one count.",
 ["src/traits/semigroup.rs","src/traits/monoid.rs","src/datatypes/wrapper/","src/datatypes/maybe.rs","src/datatypes/choice.rs"],
 [("Semigroup/Monoid implementations and extension helpers","src/traits/semigroup.rs, src/traits/monoid.rs")],
 ["combine, combine_owned, empty, combine_all, combine_n, mconcat, repeat, fold_with results"])

p("C10","Folds visit every element exactly once, in order",
 "Left and right folds over any foldable structure visit each contained element exactly once, in sequence order and reverse order respectively; length, membership, search, all/any, fold-map, sum/product and conversion to a list agree with that sequence.",
 ["inputs"],"for all foldable values, accumulators and combining functions, including non-commutative ones",
 "Tests fold with commutative additions on tiny values, which hides order, duplication and omission errors.",
 ["src/traits/foldable.rs","src/datatypes/choice.rs","src/datatypes/maybe.rs","src/datatypes/either.rs","src/datatypes/validated/traits.rs","src/pvec/traits.rs"],
 [("Foldable implementations and default methods","src/traits/foldable.rs")],
 ["visit logs of fold functions and derived queries"])

p("C11","Choosing between alternatives is a lawful first-success choice",
 "For optional, either, validated, choice, Option, Result and Vec values, choosing between alternatives is associative, keeps the first success (or, for multi-valued containers, all results in order), neutral elements of optional and multi-valued containers change nothing, guarding yields success exactly when the condition is true, and repetition collects the values there are and stays empty where there are none.",
 ["inputs"],"for all operand triples and continuations",
 "Tests use a handful of Some/None pairs; error-versus-error, multi-value and zero interactions are not covered.",
 ["src/traits/alternative.rs","src/traits/monad_plus.rs","src/datatypes/maybe.rs","src/datatypes/either.rs","src/datatypes/validated/traits.rs","src/datatypes/choice.rs"],
 [("Alternative and MonadPlus implementations","src/traits/alternative.rs, src/traits/monad_plus.rs")],
 ["alt, empty_alt, guard, many, mzero, mplus, mplus_owned results"])

p("C12","Collection-level sequencing and pipelines keep order and fail on the first error",
 "Turning a collection of fallible values, or a fallible function over a collection, into one fallible collection succeeds with all values in order when everything succeeds and otherwise yields precisely the first failure without evaluating later elements, while the accumulating form evaluates everything and keeps every failure in order. The filtering, zipping, fan-out and pipeline helpers apply their functions to the right elements, in order, once.",
 ["inputs"],"for all input collections, all positions of failures and all functions",
 "Tests have one failing position and do not observe how often or in which order user functions ran.",
 ["src/utils/error_utils.rs","src/utils/hkt_utils.rs","src/utils/categorical_utils.rs","src/utils/transform_utils.rs","src/traits/traversable.rs"],
 [("sequence/traverse/pipeline helpers","src/utils/")],
 ["results plus call logs of the supplied functions"])

p("C13","Validated accumulates every error once, in order",
 "Combining validated values applicatively yields the combined value when all are valid, and otherwise an invalid result holding every error of every invalid operand exactly once, in operand order, for any number of operands and errors. Mapping, collecting, sequencing, recovering and converting validated values neither lose, duplicate nor reorder errors, and never turn an invalid operand into a valid result except through an explicit recovery.",
 ["inputs","programs"],"for all trees of validation combinators over any mix of valid and invalid operands with any number of errors",
 "Tests combine two or three operands with one error each; inline-buffer overflow, nesting and mixed helper chains are untested.",
 ["src/datatypes/validated/core.rs","src/datatypes/validated/traits.rs","src/datatypes/validated/iter.rs","src/datatypes/validated/mod.rs"],
 [("error accumulation in apply/lift/combine/collect","src/datatypes/validated/")],
 ["error lists and values of results versus a list model"])

p("C14","Choice is an ordered list with a distinguished primary value",
 "A choice behaves as an ordered list whose first element is the primary: construction, adding, removing, swapping, filtering, de-duplicating, flattening, combining, mapping, binding and converting keep exactly the elements and order the list model gives, never lose or duplicate a value, and fall back to the next available value as primary when the primary yields nothing. Fallible variants report an error exactly when the infallible ones would panic.",
 ["histories","inputs"],"for all sequences of choice operations and all functions, including those returning empty choices",
 "Tests use two or three alternatives and never let the primary produce an empty result while an alternative succeeds.",
 ["src/datatypes/choice.rs"],
 [("SmallVec-backed list with primary first","src/datatypes/choice.rs")],
 ["first(), alternatives(), iter(), len() against a Vec model after each step"])

p("C15","Conversions between result-like types are lossless where documented",
 "Conversions between the optional, either, validated, Option and Result types keep success values, keep the (first) error where the target can hold one, and going back and forth through a lossless conversion or an isomorphism returns the original. Swapping, splitting and mapping both sides act on exactly the side they name.",
 ["inputs"],"for all values of the source types and all chains of conversions",
 "Tests convert a success and one error value; multi-error and round-trip chains are not covered.",
 ["src/error/convert.rs","src/datatypes/either.rs","src/datatypes/maybe.rs","src/datatypes/validated/core.rs","src/traits/iso.rs","src/utils/error_utils.rs"],
 [("conversion functions and From implementations, Iso instances","src/error/convert.rs, src/traits/iso.rs")],
 ["conversion results and round trips"])

p("C16","Error context is complete, ordered, and only attached to its own failure",
 "An error enriched along any pipeline carries its core error, its latest code, and exactly the context messages added while that error was in flight, most recent first, in every view (list, iterator, formatted chain). Success values pass through every step untouched, lazy context messages are built only for failures, and a failure that was recovered leaves no context behind for a later one.",
 ["programs","inputs"],"for all sequences of pipeline and error-builder steps starting from any success or failure",
 "Tests use one or two context steps on one error; interleavings of recovery, mapping and later failures are not exercised.",
 ["src/error/types.rs","src/error/context.rs","src/error/core.rs","src/error/macros.rs","src/error/convert.rs"],
 [("context stack and buffered pipeline contexts","src/error/types.rs, src/error/context.rs")],
 ["context(), context_iter(), error_chain(), Display, error_code, core error, call logs"])

p("C17","State computations thread the state exactly once through each step",
 "Running any composition of state computations from any initial state gives the same value and final state as running the steps one after another by hand: each step sees the state its predecessor left, runs exactly once per run, and the description can be run repeatedly with independent results. The transformer version does the same inside its base computation, stopping at the first failure.",
 ["programs","inputs"],"for all programs built from pure/get/put/modify/map/bind/apply/sequence steps, all initial states, and all failure positions",
 "Tests run two- or three-step programs from one state.",
 ["src/datatypes/state.rs","src/transformers/state_t.rs"],
 [("state-passing closures","src/datatypes/state.rs, src/transformers/state_t.rs")],
 ["run/eval/exec results against a direct interpreter, step call logs"])

p("C18","Reader computations see exactly the environment in force",
 "Every part of a composed reader computation sees the environment given at run time, as modified only by the enclosing local modifications, which never leak to siblings or later parts; running is repeatable. The transformer version gives the same result inside its base computation and propagates its failures.",
 ["programs","inputs"],"for all programs built from ask/asks/local/map/bind/apply/combine steps over all environments",
 "Tests check single local scopes; nesting and sharing of modified and unmodified parts is not explored.",
 ["src/datatypes/reader.rs","src/transformers/reader_t.rs"],
 [("environment-passing closures","src/datatypes/reader.rs, src/transformers/reader_t.rs")],
 ["run_reader results against a direct interpreter"])

p("C19","Writer keeps the complete log in program order",
 "The log produced by any composition of writer computations is the concatenation, in program order, of everything told by each part exactly once, independent of the log type and of how the composition is nested; values are those of the log-free program.",
 ["programs","inputs"],"for all writer programs and all log types with an associative append",
 "Tests use two tells and often commutative logs; nesting and non-commutative logs expose reordering.",
 ["src/datatypes/writer.rs"],
 [("log accumulation in bind/apply/lift/combine","src/datatypes/writer.rs")],
 ["run/value/log results against a direct interpreter"])

p("C20","Continuation computations obey bind laws and early exit",
 "Continuation computations satisfy the monad laws for every final continuation, call the continuation the right number of times, and an escape captured with call-with-current-continuation abandons exactly the rest of its block and continues after it with the supplied value. The plain and transformer forms agree, and lifting a base computation hands its result to the continuation.",
 ["programs","inputs"],"for all programs of pure/map/bind/apply/escape steps and all final continuations",
 "Tests run a few fixed programs with one continuation.",
 ["src/datatypes/cont.rs","src/transformers/cont_t.rs"],
 [("continuation passing closures","src/datatypes/cont.rs, src/transformers/cont_t.rs")],
 ["run results and continuation call logs against a direct interpreter"])

p("C21","IO descriptions are lazy and perform effects once, in order",
 "Building or combining an IO description performs no effect; each run performs every effect of the composed program exactly once in program order and returns the value of the equivalent straight-line code, and running again performs the effects again. Fallible running and error handling turn a failure in any step into an error result, skip the later steps, and run cleanup or recovery exactly where specified.",
 ["programs","fault_sequences"],"for all IO programs, any number of runs, and any step that panics or fails",
 "Tests check isolated combinators without recording effect order, counts, or failing steps inside larger programs.",
 ["src/datatypes/io.rs"],
 [("deferred effect closures","src/datatypes/io.rs")],
 ["effect log and results against a direct interpreter"])

p("C22","A cached asynchronous IO source runs once for all concurrent runners",
 "An IO value made from a one-shot asynchronous source performs the underlying work at most once, and every run, on any thread and in any interleaving with the others, returns that one result; no run fails or observes an incomplete result because another run is still in progress.",
 ["schedules","histories"],"for all numbers of runners and all schedules, including runs that start while the first is still executing",
 "The tests run the value from a single thread, so overlapping runs never happen.",
 ["src/datatypes/io.rs"],
 [("one-shot future with result cache","src/datatypes/io.rs IO::new_async")],
 ["call/return history of every run and the execution count of the source"])

p("C23","Asynchronous computations compose lawfully and run each part once per run",
 "Asynchronous computations satisfy the functor, applicative and monad laws for their awaited results under any scheduling and delays; each run awaits every part exactly once, parallel combinators (zip, zip_with, apply) run their parts together and wait for all of them, and sequential ones start a part only after its predecessor finished. Conversions from fallible results substitute the default exactly on failure, and the built-in recovery turns only failures into the default.",
 ["schedules","programs"],"for all programs of pure/map/bind/apply/zip/recover steps, with arbitrary suspension points and delays, on single- and multi-threaded executors",
 "Tests await short programs of immediately ready futures.",
 ["src/datatypes/async_monad.rs"],
 [("boxed future factories","src/datatypes/async_monad.rs")],
 ["awaited results and start/finish event logs"])

p("C24","Memoization computes each key once and always agrees with the function",
 "A memoized lookup always returns what the function returns for that key; between two clears each key is computed at most once even when many threads ask at the same time, every caller gets that same result, and after a clear the next lookup computes again. Failing computations are not cached as results.",
 ["schedules","histories"],"for all concurrent histories of lookups and clears over any keys, with arbitrary delays inside the computed function",
 "Tests are single-threaded or assert only the final value; duplicate computation and stale results need overlapping calls.",
 ["src/datatypes/wrapper/memoizer.rs"],
 [("double-checked cache under a read-write lock","src/datatypes/wrapper/memoizer.rs")],
 ["call/return events of lookups and clears and start/end events of computations"])

p("C25","Lenses, prisms and isomorphism optics obey the optic laws",
 "For optics built from lawful parts: what you set is what you get, setting what is already there changes nothing, the last set wins, modify applies the function once to the focus and touches nothing else, a prism previews exactly what it reviewed and leaves other cases untouched, and composed or mapped optics obey the same laws.",
 ["inputs","programs"],"for all structures, focus values and compositions of lawful optics",
 "Tests use one structure and one value per law and rarely check unfocused parts or compositions.",
 ["src/datatypes/lens.rs","src/datatypes/prism.rs","src/datatypes/iso_lens.rs","src/datatypes/iso_prism.rs","src/traits/iso.rs"],
 [("optic get/set/modify/preview/review/compose","src/datatypes/lens.rs, prism.rs, iso_lens.rs, iso_prism.rs")],
 ["optic results on random structures, modify call counts"])

p("C26","Function composition and arrow combinators obey category laws",
 "Composition of function morphisms is associative with identity on both sides; first, second, split, combine, both, conditional and sequence combinators, the compose/pipe helpers and macros, flip, identity and constant functions compute exactly the function their definition names, calling each component once and in order. Predicate combinators (and, or, not, xor, difference and so on) and contravariant mapping agree with boolean logic pointwise.",
 ["inputs","programs"],"for all functions, inputs and compositions",
 "Tests compose two or three fixed functions on one input.",
 ["src/category/function_category.rs","src/traits/category.rs","src/traits/arrow.rs","src/utils/categorical_utils.rs","src/utils/functions.rs","src/datatypes/wrapper/predicate.rs","src/traits/contravariant_functor.rs"],
 [("function morphisms","src/category/function_category.rs"),("predicates","src/datatypes/wrapper/predicate.rs")],
 ["results and call logs of composed functions"])

p("C27","Safe use of the library never corrupts memory, leaks or races",
 "No sequence of calls to the library's safe API, with any owned or heap-allocated values and any panicking user callback, causes undefined behaviour, a double drop, a use after free, a leak of user values, or a data race between threads.",
 ["programs","schedules","fault_sequences"],"for all safe programs over the public API, with heap-owning values, panicking callbacks and shared use across threads",
 "Ordinary tests use plain integers, under which duplicated or leaked ownership is invisible, and run without instrumentation.",
 ["src/transformers/reader_t.rs","src/pvec/","src/datatypes/","src/datatypes/wrapper/memoizer.rs","src/datatypes/io.rs"],
 [("safe Rust plus the unsafe code the crate contains","src/transformers/reader_t.rs")],
 ["address sanitizer, leak checker and the Miri interpreter under the workload, drop-counting values"])

p("C28","Error recovery runs exactly for errors and its laws hold",
 "Throwing an error and catching it runs the handler once on exactly that error; catching a success never runs the handler and returns the success unchanged; recovery, error mapping, recover-with-default and or-else operations of the either, Result, validated and composable error types act only on the failing side, and a thrown error skips every later bind.",
 ["inputs","programs"],"for all values, errors and handlers of every error-carrying type, and all chains of throw, catch, map and bind",
 "Tests recover one error once; interleavings of throw, catch and bind and handler invocation counts are unchecked.",
 ["src/traits/monad_error.rs","src/error/core.rs","src/utils/error_utils.rs","src/datatypes/either.rs","src/datatypes/validated/core.rs"],
 [("MonadError/ErrorOps/WithError implementations","src/traits/monad_error.rs, src/error/core.rs, src/utils/error_utils.rs")],
 ["results and handler call logs"])

p("C29","Two-sided and dual structures obey their laws",
 "Mapping both sides of a pair-like or either-like value acts on each side independently and satisfies the identity and composition laws; extracting after duplicating a comonadic value returns the original and extending obeys the comonad laws; lazily evaluated values return what their computation returns and evaluate it only when asked.",
 ["inputs"],"for all values and functions of every bifunctorial, comonadic and lazily evaluated type",
 "Tests check one value per law, and never count evaluations.",
 ["src/traits/bifunctor.rs","src/traits/comonad.rs","src/traits/evaluate.rs","src/datatypes/wrapper/thunk.rs","src/datatypes/id.rs","src/datatypes/either.rs","src/datatypes/validated/traits.rs"],
 [("Bifunctor, Comonad and Evaluate implementations","src/traits/")],
 ["results and evaluation call logs"])

p("C30","Serialization round-trips every serializable value",
 "With serialization enabled, writing any serializable datatype to a format, self-describing or positional, and reading it back gives a value equal to the original, and distinct values have distinct serialized forms.",
 ["inputs"],"for all values of every serializable datatype, including empty, nested and spilled collections and extreme numbers",
 "Tests round-trip one or two values per type.",
 ["src/datatypes/choice.rs","src/datatypes/either.rs","src/datatypes/maybe.rs","src/datatypes/validated/core.rs","src/datatypes/id.rs","src/datatypes/writer.rs","src/datatypes/wrapper/"],
 [("derived serde implementations","src/datatypes/")],
 ["serde_json and bincode round trips"])

p("C31","Containers and wrappers give back what was put into them",
 "Whatever a wrapper or container (first/last/min/max/sum/product, Id, writer, optional, either, validated, choice, error values) was built from is exactly what every accessor, reference view, iterator (shared, exclusive and consuming, however it is driven), neutral element and printed form gives back. Accessors for an absent value fail loudly instead of inventing one, and writing through an exclusive view changes exactly the parts it names.",
 ["inputs"],"for all contents and sizes, including absent values and error or alternative lists far beyond the inline buffers, and every way of driving an iterator",
 "Tests read back one short value per type through the usual accessor; exclusive iterators, printed forms of empty values and oversized lists are not covered.",
 ["src/datatypes/wrapper/","src/datatypes/id.rs","src/datatypes/writer.rs","src/datatypes/maybe.rs","src/datatypes/either.rs","src/datatypes/choice.rs","src/datatypes/validated/iter.rs","src/datatypes/validated/core.rs","src/error/types.rs","src/pvec/error.rs"],
 [("constructors, accessors, iterators and Display implementations","src/datatypes/")],
 ["accessor results, iterator protocol answers, printed strings"])

p("C32","Provided trait methods and generic code are right for any lawful instance",
 "For every user-defined type that implements the required methods of the library's traits lawfully, the methods the traits provide (sequencing left/right, replace, void, fallible maps, try_bind, fold queries, bulk semigroup/monoid helpers, lazy evaluation combinators, isomorphism combinators, traversal, natural transformations) and the library code generic over those traits (transformers, pipelines, Id and writer layers) compute what their definitions say: effects of both operands in order, each function called once per element in order, each computation evaluated exactly once.",
 ["inputs"],"for all lawful instances of the traits, represented by a monad with ordered, multiplied effects, a binary tree, a non-commutative monoid, counted computations and lawful and unlawful isomorphisms, over all their values",
 "Tests only use the library's own instances, in most of which order, multiplicity and repeated evaluation cannot be seen.",
 ["src/traits/","src/transformers/","src/utils/transform_utils.rs"],
 [("provided trait methods and blanket extension traits","src/traits/"),("code generic over Monad/Functor/Monoid","src/transformers/, src/utils/transform_utils.rs")],
 ["results, effect logs, call and evaluation logs of harness-defined instances"])

p("C33","Equality, ordering, hashing and copies follow the contents",
 "Two library values (choice, validated, either, optional, writer, Id, the monoid wrappers, errors) are equal exactly when their contents are, whatever operations produced them; their ordering is a total order consistent with equality and, within one alternative, with the contents; equal values hash equally, so sets and maps keyed by them behave; copies equal their originals; and contents that are not equal to themselves or not comparable stay so inside the wrapper.",
 ["inputs","histories"],"for all pairs and triples of values of every comparable type and every way of having built them",
 "Tests compare a few values built the same way; hash agreement, transitivity, values reaching the same contents by different routes and incomparable contents are not checked.",
 ["src/datatypes/choice.rs","src/datatypes/validated/core.rs","src/datatypes/either.rs","src/datatypes/maybe.rs","src/datatypes/id.rs","src/datatypes/writer.rs","src/datatypes/wrapper/","src/error/types.rs","src/utils/error_utils.rs","src/pvec/error.rs"],
 [("derived and written PartialEq/Ord/Hash implementations","src/datatypes/, src/error/types.rs, src/utils/error_utils.rs")],
 ["comparison results, hashes, set sizes, sorted orders"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
