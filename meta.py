"""property texts (source of properties.jsonl and MANIFEST.json)"""
HOOKS = None
NOT_APPLICABLE = []
PROPERTIES = []
def P(id, title, statement, over, qtext, why, files, mech, note='', na='', **kw):
    PROPERTIES.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
        anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': kw.get('observe', []), 'hook_needed': None},
        note=note, na=na))

P('C01', 'Truth values stay in range under every truth function',
  'For every pair of truth values with frequency in [0,1] and confidence in [0,1), each truth function (deduction, goal deduction, abduction, induction, comparison, intersection, negation, revision) returns a frequency and a confidence in [0,1], and the expectation lies in [0,1]. Derived conclusions therefore never carry an impossible truth value.',
  ['inputs'], 'all pairs of truth values', 'The unit tests evaluate a handful of fixed truth values; the domain is a continuum and the extremes (0, 1, nearly 1, tiny) are untested.',
  ['src/Tv.rs'], [('truth functions', 'src/Tv.rs'), ('weight/confidence conversion', 'src/Tv.rs w2c, c2w')],
  note='Proved for all real-valued truth values by Verus (range lemmas over the contracts of every function in src/Tv.rs); the thorough tier adds bit-precise IEEE-754 range contracts by Kani/CBMC for all functions but revision. Assumes A-REAL for revision rounding.')
P('C02', 'Truth functions compute the NAL formulas',
  'Every inference truth function returns exactly the frequency and confidence its Non-Axiomatic-Logic definition gives: deduction (f1f2, f1f2c1c2), abduction and induction (premise frequency with weak evidence w/(w+1)), comparison, intersection, negation, goal deduction (the more confident of the direct and the doubly negated deduction) and expectation c(f-1/2)+1/2. Swapping premises or variants (induction is abduction with swapped premises) is reflected exactly.',
  ['inputs'], 'all pairs of truth values', 'Tests compare single conclusions at a few truth values, so formulas that agree there and differ elsewhere pass.',
  ['src/Tv.rs'], [('truth functions', 'src/Tv.rs')],
  note='Functional contracts: result equals the NAL formula over the reals for every input. Assumes A-REAL (exact arithmetic).')
P('C03', 'Revision accumulates evidence',
  'Revising two truth values adds their evidence: the result does not depend on the order of the two, its confidence is never below either input and strictly above both when both carry evidence, and its frequency lies between the two. Accumulating a list gives the total evidence of the list, and element-wise revision of vectors revises matching positions only.',
  ['inputs', 'histories'], 'all truth values and all finite lists of them', 'Order independence and monotonicity are relations between runs over a continuum and over unbounded lists; tests sample none of them.',
  ['src/Tv.rs', 'src/TvVec.rs'], [('revision', 'src/Tv.rs rev'), ('folding', 'src/TvVec.rs foldVec, revVec')],
  note='Functional contract plus lemmas (symmetry, monotone confidence, frequency between inputs, neutral element) over the reals; fold proved for lists of any length.')
P('C04', 'Evidence overlap is detected exactly',
  'Two evidential bases are reported as overlapping exactly when they share at least one evidence id, whatever their lengths and order, and reported as the same exactly when they hold the same ids in the same order. A freshly made base holds exactly the ids it was given.',
  ['inputs'], 'all pairs of id lists of any length', 'Only loops over unbounded lists decide it; no unit test covers stamps at all.',
  ['src/NarStamp.rs'], [('overlap test', 'src/NarStamp.rs checkOverlap'), ('identity test', 'src/NarStamp.rs checkSame')],
  note='Loop invariants over lists of any length; exact characterisation of the result.')
P('C05', 'Merged evidence is bounded, fair and invents nothing',
  'Merging two evidential bases yields at most 120 ids, each taken from one of the two; the bases are interleaved from their start so that neither is dropped before the other, and when both together hold at most 120 ids none is lost. The result is determined by the two bases alone.',
  ['inputs'], 'all pairs of id lists of any length', 'The bound only bites beyond 120 ids, which no test builds, and fairness is a statement about every position.',
  ['src/NarStamp.rs'], [('merge', 'src/NarStamp.rs merge')],
  note='Result proved equal to the first 120 elements of the interleaving for lists of any length; boundedness and no-loss are lemmas over that contract.')

P('C06', 'Term equality is structural identity and copies are faithful',
  'Two terms are reported equal exactly when they are built the same way from the same parts: same kind, same copula, same name or variable name, same image position, and the same components in the same order and number, at every depth. A copy of a term equals its original and every other term is distinguished from it.',
  ['inputs'], 'all pairs of terms of any shape, width and depth', 'Terms are an unbounded recursive type; tests compare a few small ones and near-misses at depth, in long lists or in image positions are not sampled.',
  ['src/Term.rs'], [('equality', 'src/Term.rs checkEqTerm'), ('copy', 'src/Term.rs impl Clone for Term')],
  note='Recursive contract: result == (deep value of a == deep value of b); clone ensures equal deep value. Unbounded in depth and width.')
P('C07', 'Term traversal is exact',
  'Enumerating the subterms of a term lists the term first and then the subterms of its parts, left to right, every occurrence exactly once, nothing else. The unique list holds each distinct subterm exactly once in order of first appearance. The complexity of a term is the sum over its own structure (as defined per kind), and the number of occurrences of a subterm is the number of places at which it can be replaced (the term itself counts as one, and no occurrence inside an occurrence or in the relation of an image is counted).',
  ['inputs'], 'all terms of any shape, width and depth', 'Recursion over unbounded trees; the tests check a few terms.',
  ['src/Term.rs'], [('subterms', 'src/Term.rs retSubterms, retSubterms2, retUniqueSubterms'), ('complexity', 'src/Term.rs calcComplexity'), ('occurrences', 'src/Term.rs count_occurence_subterms')],
  note='Each function proved equal to a recursive definition over the deep term value, for all terms.')
P('C08', 'Unification is sound, complete and consistent',
  'Unifying a pattern with a term succeeds exactly when the variables of the pattern can be bound to non-variable subterms so that the pattern becomes the term; then it returns exactly those bindings, one per variable occurring in the pattern, and a variable occurring several times must stand for the same subterm everywhere. Applying the returned bindings to the pattern yields the term. When it fails no binding works.',
  ['inputs'], 'all pairs of terms of any shape', 'Soundness and completeness quantify over all terms and all bindings; the tests try a few matches.',
  ['src/NarUnify.rs'], [('unification', 'src/NarUnify.rs unify, unify2'), ('consistency of assignments', 'src/NarUnify.rs checkAssigned, checkSameVal')],
  note='Contracts relate the returned assignment list to the most general matcher over deep term values (lemma: applying it to the pattern gives the term; failure implies that no matcher exists).')
P('C09', 'Substitution replaces exactly the bound variables',
  'Substituting an assignment into a term replaces every occurrence of every assigned variable, at any depth and in every position (including statement sides, sets, sequences, products and images), by its assigned term and leaves everything else exactly as it was.',
  ['inputs'], 'all terms and all assignments', 'A missed position only shows with a variable at that place; positions and depths are unbounded.',
  ['src/NarUnify.rs'], [('substitution', 'src/NarUnify.rs unifySubst')],
  note='Result proved equal to the homomorphic extension of the assignment for every term.')
P('C10', 'Operator terms and term builders round-trip',
  'Encoding an operator call with a name and arguments and decoding it gives back the same name and arguments, for any number of arguments; a term that is not such a call decodes to nothing. The term builders (products of two, three or any number, statements, sequences, conjunctions) build exactly the kind of term they name with exactly the given components in order.',
  ['inputs'], 'all names, argument lists and terms', 'Argument lists are unbounded and decoding must reject every other shape of term.',
  ['src/TermUtils.rs', 'src/TermApi.rs'], [('operator codec', 'src/TermUtils.rs decodeOp, encodeOp'), ('builders', 'src/TermApi.rs p2, p3, p, s, seq, conj')],
  note='decode proved against an exact characterisation of the term shape, encode against the built term; the round trip is a lemma over both contracts.')
P('C11', 'Single-premise inference derives exactly the licensed conclusions',
  'From one judgement the structural rules derive exactly the conclusions their definitions license, each with its truth value (negation negated, all others that of the premise), as judgements: the inner term of a negation, each of the first three components of a subject or predicate intersection, both images of a two-component product and the product back from a two-place image, similarity of the members of one-element sets, and each component of a parallel consequent. No other premise yields anything, and questions and goals yield nothing.',
  ['inputs'], 'all terms and truth values', 'The rules match on unbounded terms; tests check few premises and never that nothing else is derived.',
  ['src/NarWorkingCycle.rs'], [('rules', 'src/NarWorkingCycle.rs infNeg, infStruct*'), ('rule table', 'src/NarWorkingCycle.rs infSinglePremise')],
  note='Each rule has an exact functional contract; infSinglePremise is proved to return exactly the multiset of their conclusions.')
P('C12', 'Two-premise inference derives exactly the licensed conclusions in both premise orders',
  'From two premises the rule set derives exactly the conclusions its rules license (deduction, abduction, induction over inheritance, deduction over implications, comparison, intersection, set union, detachment of an implication or of one of the first four conjuncts of its condition with variables bound by unification, and binding of a questioned implication), with the truth function of the rule applied to the right premise in the right role, whichever of the two premises comes first. The rules-applied flag is set exactly when something was derived.',
  ['inputs'], 'all pairs of terms, punctuations and truth values', 'The product of rules, premise orders and unbounded terms is far beyond the handful of conclusions the tests check.',
  ['src/NarWorkingCycle.rs'], [('rules', 'src/NarWorkingCycle.rs infGeneralizedJudgJudg, infCompPred, infCompSubj, inf3, inf4, inf5, inf7, inf10, infImplDed'), ('both orders', 'src/NarWorkingCycle.rs infBinary, infBinaryInner')],
  note='Each rule has an exact functional contract; infBinary is proved to return exactly the multiset of licensed conclusions of both orders.')
P('C13', 'Inference never counts evidence twice and conclusions carry the evidence of their premises',
  'Premises that share any evidence yield no two-premise conclusion. Otherwise every conclusion carries the merged evidence of both premises, is eternal, and carries the truth value computed from the premises. A single-premise conclusion carries exactly the evidence of its premise.',
  ['inputs', 'histories'], 'all pairs of sentences, hence every derivation history', 'Correctness of every stored belief depends on it over arbitrarily long derivations; no test checks stamps of conclusions.',
  ['src/NarWorkingCycle.rs', 'src/NarStamp.rs'], [('two premises', 'src/NarWorkingCycle.rs inference, inference2'), ('one premise', 'src/NarWorkingCycle.rs infSinglePremise2')],
  note='Contracts over sentence values with locks erased (A-LOCK).')
P('C14', 'Sentences report the truth of their evidence and are copied and created faithfully',
  'A sentence holding counted evidence reports frequency pos/cnt and confidence cnt/(cnt+1); one holding a truth value reports it unchanged; one with no evidence reports none. A shallow copy has the same term, time, punctuation, stamp, interval and evidence and shares the usage record. A newly made eternal sentence holds exactly the given term, punctuation, truth value and stamp with no time and fresh usage (questions carry no evidence). Usage counts every use and remembers the last, and usefulness is a monotone function of both within [0,1).',
  ['inputs'], 'all sentences, counts and times', 'Counts and times are unbounded and every belief passes through these.',
  ['src/NarSentence.rs'], [('truth', 'src/NarSentence.rs retTv, retFreq, retConf'), ('copy and construction', 'src/NarSentence.rs shallowCopySentence, newEternalSentenceByTv'), ('usage', 'src/NarSentence.rs usageUpdate, calcUsageUsefulness')],
  note='Exact functional contracts with locks erased (A-LOCK) and real arithmetic (A-REAL).')
P('C15', 'Goal derivation is sound',
  'From a goal g and a belief (c =/> g) with disjoint evidence exactly the goal c is derived, with the goal-deduction truth of desire and belief and the merged evidence; any other belief, and any pair sharing evidence, derives nothing. From a goal that is a sequence exactly its first element is detached as a goal with the same desire and evidence.',
  ['inputs'], 'all goals and beliefs', 'Subgoal derivation drives every action of the system, over arbitrarily long chains; tests do not check it.',
  ['src/NarInfProcedural.rs'], [('goal deduction', 'src/NarInfProcedural.rs infGoalBelief, retDesire'), ('detachment', 'src/NarInfProcedural.rs infGoalDetach')],
  note='Exact functional contracts with locks erased (A-LOCK).')
P('C16', 'Variable introduction generalises and loses nothing',
  'Introducing a variable into a learned contingency replaces all replaceable occurrences of the chosen subject, which must occur at least twice, by one fresh independent variable and nothing else; substituting the subject back for the variable gives the original. Evidence, stamp, time and punctuation are those of the original. Contingencies of any other shape are left alone.',
  ['inputs'], 'all contingencies and all random draws', 'Positions are unbounded and the name is random.',
  ['src/NarInfProcedural.rs'], [('introduction', 'src/NarInfProcedural.rs intro_vars, matchandintro_var1, matchandintro_var1_sentence')],
  note='Result proved to be the replacement of the subject by one variable; lemma: substituting back gives the original when the variable is fresh. Freshness of the random name is an assumption of the proof (A-RAND), checked by replay.')

P('C17', 'Belief storage files every judgement under all its subterms, ranked, bounded and without duplicates',
  'Storing a judgement files it under the concept of every subterm of its statement (or under exactly the given terms), creating missing concepts named by that term, and touches no other concept; questions and goals are not stored. Each concept keeps two tables: by expectation and by usefulness of usage. A table that already holds the same statement from overlapping evidence is left as it is; otherwise the judgement is added, the table is ordered by descending rank, and only the best n beliefs are kept, so a belief is dropped only in favour of n beliefs ranked at least as high and nothing is invented. A new memory is empty.',
  ['inputs', 'histories'], 'all memories, judgements, capacities and times, hence every history of storing', 'Capacity, duplicates, both rankings and repeated subterms interact over arbitrarily long histories; no test looks into the tables.',
  ['src/NarMem.rs'], [('storage', 'src/NarMem.rs storeInConcepts, storeInConcepts2'), ('new memory', 'src/NarMem.rs make')],
  note='The memory after storing is proved equal to a recursive definition over finite maps of ranked tables; boundedness, order, no invention and best-n are lemmas over it. Assumes A-MAP, A-SORT, A-LOCK, A-UNIQ.')
P('C18', 'Forgetting keeps the best concepts intact',
  'Limiting a memory to n concepts leaves a memory with at most n concepts exactly as it is. Otherwise exactly n concepts remain, each unchanged and found under its own term, and no forgotten concept was rated higher than a kept one, where the rating of a concept is the highest expectation among its beliefs ordered by expectation.',
  ['inputs', 'histories'], 'all memories and limits', 'Only memories beyond the limit show it, which the tests never build.',
  ['src/NarMem.rs'], [('forgetting', 'src/NarMem.rs limitMemory')],
  note='Loop invariants over the map iteration and a sorted permutation; result relation proved for every memory. Assumes A-MAP, A-SORT, A-LOCK, A-UNIQ.')
P('C19', 'Lookup returns exactly the beliefs of the asked concepts',
  'Asking for the beliefs of a term yields nothing when no concept of exactly that term exists, and otherwise its beliefs by expectation followed by its beliefs by usage, in table order. Asking by several terms yields, for each term and each of its subterm occurrences in order, the beliefs of that concept, each as the stored object itself; concepts of other terms contribute nothing.',
  ['inputs', 'histories'], 'all memories and term lists', 'Terms and memories are unbounded; the tests never query the memory directly.',
  ['src/NarMem.rs'], [('lookup', 'src/NarMem.rs ret_beliefs_of_concept, ret_beliefs_by_terms_nonunique')],
  note='Results proved equal to the concatenation of the tables of all subterm concepts. Assumes A-MAP, A-LOCK.')
P('C20', 'Belief revision in memory uses disjoint evidence once and loses nothing',
  'Taking in a judgement revises, in each table of each concept of its subterms, the first belief that states the same from disjoint evidence: that belief is replaced by one with the revised truth value, the merged evidence, the time and punctuation of the old belief and a fresh usage record, and this is also the reported conclusion. Beliefs with overlapping evidence or another statement, other concepts and the sizes of all tables stay as they are; when nothing matches nothing changes and nothing is concluded. Questions and goals revise nothing.',
  ['inputs', 'histories'], 'all memories and sentences', 'Depends on which beliefs share evidence across an arbitrary history; tests never inspect revised tables.',
  ['src/NarWorkingCycle.rs'], [('revision', 'src/NarWorkingCycle.rs memReviseBelief')],
  note='The memory and the conclusion are proved equal to a recursive definition; lemmas: table sizes, untouched concepts, confidence never falls. Assumes A-LOCK, A-MAP, A-UNIQ, A-REAL.')
P('C21', 'Questions are answered by the best matching judgement, once, to everyone',
  'A candidate answers a question exactly when it is a judgement, its expectation is strictly above that of the best answer so far, and the question unifies with it. Then the asker (if it has a handler) and every registered observer are told exactly once, with the question term and the candidate, and the best expectation becomes that of the candidate; so successive answers are strictly better. Otherwise nobody is told anything and the question is unchanged. The question itself and its priority never change.',
  ['inputs', 'histories'], 'all questions, candidates, handler lists and histories of candidates', 'The guarantee is about every sequence of candidates; tests only check that some answer appears.',
  ['src/NarWorkingCycle.rs', 'src/NarUnify.rs'], [('answering', 'src/NarWorkingCycle.rs qaTryAnswer')],
  note='Callbacks are modelled as recorders (A-HANDLER); postcondition over the recorded calls, for any number of observers.')
P('C22', 'Attention selects by credit, fairly and in range',
  'The credit of a task is (0.2 qaCredit + credit) * exp(-0.001 * age) * mulCredit. Random selection among tasks, questions or beliefs with a fraction v in [0,1] returns the first index whose cumulated weight (credit, priority or confidence respectively) reaches v times the total weight, else the last index: always a valid index, so with a uniform v every item is chosen in proportion to its weight. Selecting the best returns the first index of highest credit, and nothing only from an empty list.',
  ['inputs'], 'all non-empty lists of tasks, weights, fractions and times', 'Lists are unbounded and fairness is a statement about every fraction.',
  ['src/NarWorkingCycle.rs'], [('credit', 'src/NarWorkingCycle.rs taskCalcCredit'), ('selection', 'src/NarWorkingCycle.rs taskSelByCreditRandom, task2SelByCreditRandom, conceptSelByAvRandom, taskSelByCreditTop, tasksSelHighestCreditIdx')],
  note='Prefix-sum invariants over the reals (A-REAL); lemma: for positive total weight and v in (0,1] the chosen item has positive weight and v falls into its share. taskSelByCreditTop assumes credits above -5000, its initial best.')
P('C23', 'Taking in a sentence updates memory and tasks consistently',
  'A sentence whose complexity exceeds the limit changes nothing. Otherwise a judgement first revises the memory; only if nothing was revised is it stored. Then the sentence and, if there is one, the revision conclusion become tasks in this order, stopping at the first for which a task with the same statement and the same evidence exists: each new judgement task has credit 1 (divided by its complexity if asked for), no question credit, the given multiplier, the next task id, the current cycle as derivation time, is appended to the task list and is filed, after the tasks already there, under every subterm occurrence. A question becomes a question task with no handler, no answer yet and priority 1. Goals add nothing. All other state, including the other counters, is unchanged.',
  ['inputs', 'histories'], 'all shared states and sentences, hence every history of input and derivation', 'It is the single entry point of every input and every derived conclusion; the tests only observe eventual answers.',
  ['src/NarWorkingCycle.rs'], [('intake', 'src/NarWorkingCycle.rs memAddTask'), ('index', 'src/NarWorkingCycle.rs populateTaskByTermLookup'), ('credit', 'src/NarWorkingCycle.rs divCreditByComplexity')],
  note='The shared state after the call is proved equal to a definition composed of the contracts of revision, storage and filing. Sequential reading (A-LOCK); terms of complexity 0 are excluded.')
P('C24', 'Procedural knowledge is filed under its condition and consequence and found again',
  'Adding evidence for a contingency (a condition and an operation that lead to a consequence) files it in the procedural memory under every subterm of its first condition and of its consequence, once as given and, when its condition is about a subject that occurs at least twice, once more with that subject replaced by a variable, with the same truth, evidence, time and usage; no other concept is touched. A contingency whose condition is a single event is taken in like any other. Asking for the contingencies by what has to be observed first, or by what they lead to, returns exactly those stored beliefs of the concepts of the asked term whose condition starts with, or whose consequence is, exactly that term; so a contingency that was taught is found again while there is room for it.',
  ['inputs', 'histories'], 'all procedural memories, contingencies and queried terms', 'Acting depends on retrieving learned contingencies from a memory of arbitrary history; no test queries the procedural memory.',
  ['src/NarProc.rs', 'src/NarGoalSystem.rs'], [('adding evidence', 'src/NarProc.rs mem_add_evidence, mem_add_evidence_internal'), ('retrieval', 'src/NarGoalSystem.rs query_by_antecedent, query_by_consequence')],
  note='Memory proved equal to the storage definition of C17 over the filing terms, retrieval to a filter over the lookup of C19; lemma_taught_is_found composes both. Assumes A-MAP, A-SORT, A-LOCK, A-UNIQ, A-RAND; sequences without elements are excluded.')
P('C25', 'Contingencies are built from observed events and registered operations only',
  'An operation is callable exactly when its term is an operator call and an op of that name is registered; looking an op up by name returns the first one registered under it. From a list of events a contingency is built exactly when all inner events are callable operations, the first and last are not, and the first and last differ; it then is exactly (first, operations in order) =/> last. The positions of the operations in a trace are reported exactly and in order. The parts of a contingency (condition, operation, consequence) are read back exactly as built, and anything that is not such a contingency is rejected. The exponential interval table is searched for the last entry of the leading run of entries not longer than the interval.',
  ['inputs'], 'all lists of at least three events, registered ops and terms', 'Event lists and terms are unbounded; tests only observe that some behaviour is learned.',
  ['src/NarProc.rs'], [('building', 'src/NarProc.rs try_build_implSeq, checkIsCallableOp, ret_op_by_name, calcIdxsOfOps'), ('reading back', 'src/NarProc.rs retPred, retSubj, retImplSeqOp, retSeqCond, is_seqAndLastOp'), ('intervals', 'src/NarProc.rs findMinTableIdx')],
  note='Exact functional contracts over deep term values; registered ops are opaque objects with a name (A-OP).')
P('C26', 'The event trace remembers the most recent events in order',
  'Every event that happens is appended to the trace. Limiting the trace keeps exactly the 20 most recent events in their order and nothing else, and never drops anything from a shorter trace. The latest event is reported as the last one, nothing from an empty trace, and the view is the whole trace in order. Flushing empties it.',
  ['inputs', 'histories'], 'all traces, hence every history of events', 'A bound and an order over every history of events; no test inspects the trace.',
  ['src/NarProc.rs'], [('trace', 'src/NarProc.rs TraceDefault limit, event_happened, force_flush, ret_last_events, ret_view')],
  note='Sequence contracts with locks erased and the trace taken by exclusive reference (A-LOCK).')
P('C27', 'Forgetting keeps the most useful goals within the limit',
  'Limiting the goal system recomputes the utility of every goal as (expectation of its truth) * |desirability| * exp(-0.01 * age), keeps exactly the nMaxEntries goals of highest utility (all of them if there are no more; goals of operations count like all others), and never drops a goal while keeping one of lower utility. A kept goal keeps its sentence, evidence, creation time, depth and desirability, and the kept goals are arranged again as C29 says, with the selection weights accumulated anew from the first goal of each group. No goal appears that was not there before.',
  ['inputs', 'histories'], 'all goal systems that a history of operations can reach, all times and limits', 'The bound has to hold after every history of goals; no test exceeds the limit.',
  ['src/NarGoalSystem.rs'], [('forgetting', 'src/NarGoalSystem.rs limitMemory'), ('rearranging', 'src/NarGoalSystem.rs addEntry2, retEntries')],
  note='Goals are cells of a ghost heap (A-HEAP). The state after the call is proved equal to a definition (recompute, sort, cut, refill); lemma_limit derives the statement from it and lemma_always_limit that every invariant survives.')
P('C28', 'Goals are satisfied by their event, found by their term, and the best applicable one is chosen',
  'An event sets the desirability of exactly the goals whose term is the term of the event to 0, when goal satisfaction is enabled, and changes nothing else; with satisfaction disabled it changes nothing. A goal is desired when its desirability is above 0.0001. Asking for a goal by a term returns a goal of exactly that term whenever there is one, else nothing. Asking for the best goal in a state returns, among all goals that are a sequence whose part before the last element unifies with the state, one of highest expectation above 0, together with this expectation and the goal term under that unification; else nothing with expectation 0. Asking changes nothing.',
  ['inputs', 'histories'], 'all goal systems, events and states', 'The choice is over any number of goals with variables; the tests exercise one goal at a time.',
  ['src/NarGoalSystem.rs'], [('satisfaction', 'src/NarGoalSystem.rs event_occurred, is_desired'), ('lookup', 'src/NarGoalSystem.rs query, retEntries'), ('decision', 'src/NarGoalSystem.rs selHighestExpGoalByState, retSubSeqAsSeqOrTerm')],
  note='Exact postconditions over the ghost heap of goals (A-HEAP) and the unification contract of C08.')
P('C29', 'Every goal is stored once, in its place, and found again',
  'Adding a goal which has the same term and the same evidence as a stored one changes nothing. Otherwise exactly one goal is added, with the given sentence, evidence, time and depth, desirability 1 and utility 1, and no stored goal changes. At every moment: a goal for an operation is in the active set and nowhere else, every other goal is in the batch of its depth (the deepest batch if it is deeper), in the only group of its term there; no group is empty; within a group the accumulated desirabilities start at 0 and never decrease, each being that of its predecessor plus its desirability if positive; the index by term holds exactly the goals of the batches; and no two goals have the same term and evidence. A new goal system is empty with one batch per depth.',
  ['inputs', 'histories'], 'all goals and all histories of adding, forgetting, satisfaction and derivation', 'The arrangement is an invariant over every history; no test inspects it.',
  ['src/NarGoalSystem.rs'], [('adding', 'src/NarGoalSystem.rs addEntry, addEntry2, checkSetContains'), ('creation', 'src/NarGoalSystem.rs makeGoalSystem')],
  note='ginv is proved to be established by makeGoalSystem and preserved by every operation (lemmas lemma_always_*), over a ghost heap of goals (A-HEAP). Only goals may be added (precondition), of depth 0 or more.')
P('C30', 'Goal derivation adds exactly what follows from the sampled goal',
  'A step of goal derivation samples one goal (as C31 says) and adds only goals that follow from it in one or more steps: from a sequence its first element with the same truth and evidence; from any other goal g, for each known contingency whose consequence is exactly g and whose evidence does not overlap, the condition of the contingency with the desire of goal deduction and the merged evidence, remembering that contingency. Each derived goal is one deeper than the goal it comes from, is created at the given time, and is dropped when the same goal is stored already. Everything that follows from the sampled goal in one step is in the goal system afterwards. When nothing was sampled nothing changes. No stored goal is lost or changed.',
  ['inputs', 'histories'], 'all goal systems, procedural memories and random choices', 'Planning depth depends on arbitrary memories and random choices; tests only observe that some behaviour is learned.',
  ['src/NarGoalSystem.rs', 'src/NarInfProcedural.rs'], [('derivation', 'src/NarGoalSystem.rs sampleAndInference, deriveGoalsHelper')],
  note='Postcondition: exists a sampled goal and a set of derivable goals (recursively defined relation der) that was added. Arbitrary random choices (A-RAND). Truth values in range, stamps below 2^63 ids and depths that do not overflow are preconditions, preserved by lemma_always_spread.')
P('C31', 'Goals are sampled in proportion to their desirability',
  'Sampling a goal first chooses among the depths that have goals, all with the same chance, then within that depth a goal with a chance equal to its share of the accumulated desirability; so a goal is returned whenever the chosen depth has desirable goals, and it is a goal of that depth, returned with its own depth. Nothing is sampled exactly when there is nothing to choose from. Searching a group for a value returns the last goal whose accumulated desirability is not above the value (the first goal if there is none).',
  ['inputs', 'histories'], 'all goal systems that a history of operations can reach and all random values', 'The statement is about all random values and all arrangements of groups; no test samples from a group of several goals.',
  ['src/NarGoalSystem.rs', 'src/BinSearch.rs'], [('sampling', 'src/NarGoalSystem.rs sample'), ('search', 'src/BinSearch.rs binSearch')],
  note='Proved for every pair of random values in [0,1) over the reals (A-REAL, A-RAND). Excluded: the value exactly 0 for the choice of depth, which the code maps to the first depth even when it is empty.')
P('C32', 'Reading a term accepts exactly the written terms and returns the term that was written',
  'Reading a term from a text succeeds exactly when the text starts with the written form of a term, and returns that term and the text after it; it never crashes and always ends. Written forms: a name is a run of one or more letters and digits of any script, "-", "_" and "^", and is read to its end; variables are ?name, #name and $name; statements are <S cop P> with one of " --> ", " <-> ", " ==> ", " =/> ", " <=> "; (!a) is a negation; {a} and [a] are sets; (a,b,...) is a sequence and (a*b*...) a product of two or more; (a&b) and (a|b) are intersections; (a /1 b) and (a /2 b) are images; (a&&b), (a&&b&&c) and (a&&b&&c&&d) are conjunctions. Components may be terms of any kind and nesting, and keep their number and order. No two different terms have the same written form.',
  ['inputs'], 'all texts and all terms', 'The grammar is recursive; tests read some thirty fixed ASCII texts.',
  ['src/NarseseParser.rs'], [('terms', 'src/NarseseParser.rs parseEntry, parseStatement, parseSubjOrPred, parseSeq, parseProd, parseConj2..4, parseNeg, parseImg0/1, parseExtInt2, parseIntInt2, a, b, c, qVar, depVar, indepVar, parseCopula'), ('names', 'src/NarseseParser.rs alpha2, isValidSign')],
  note='Every parse function is proved sound, complete and terminating against a definition of the written form (lemmas: the written form is prefix free in the needed sense, hence unambiguous). nom primitives are assumed as documented (A-NOM); stack exhaustion by deep nesting is not modelled (A-TOTAL).')
P('C33', 'A sentence is read with its punctuation, truth value and event marker',
  'Reading a sentence from any text never crashes. Blanks next to "*" are ignored. A text that ends in " :|:" is an event. What then ends in "{f c}" with exactly two numbers, separated by one blank, with f in [0,1] and c in [0,1), has this truth value and the braces are cut away; any other text keeps all its characters and has the default truth value {1.0 0.9}. After dropping blanks at the end the last character has to be "." (judgement), "!" (goal) or "?" (question), and what stands before it has to start with a term as C32 says; then the result is exactly this term, truth value, punctuation and event flag. In every other case nothing is read. So every term written as C32 says, with any punctuation, truth value and event marker, is read back exactly.',
  ['inputs'], 'all texts', 'Everything a user says goes through this function; tests read well formed texts only.',
  ['src/NarseseParser.rs'], [('sentences', 'src/NarseseParser.rs parseNarsese'), ('truth values', 'src/NarseseParser.rs parseNarseseRetTv')],
  note='The result is proved equal to a definition over sequences of characters; lemma_written is the round trip. String operations of std and the reading of numbers are assumed as documented (A-STR).')
P('C34', 'What is said reaches the part of the reasoner that handles it, and nothing else',
  'Saying something to the reasoner takes the next evidence id, and: a question (event or not) and an eternal judgement that is not a contingency become tasks exactly as C23 says (revised with or stored among the beliefs, dropped when more complex than the limit), with the given truth value and this single evidence id; an eternal judgement of a contingency <.. =/> ..> becomes evidence 10 of 10 in the procedural memory as C24 says, and no task; a judgement of an event is appended to the trace of events with the current time as its time and its evidence, and is stored nowhere else; a goal of an event is added to the goals as C29 says, at depth 0, created now, without supporting evidence; an eternal goal changes nothing else. Saying a text says what was read as C33 says and returns true; a text that can not be read changes nothing at all and returns false.',
  ['inputs', 'histories'], 'all texts, terms, punctuations, truth values and states of the reasoner', 'The routing depends on every combination of copula, punctuation and event marker, and on nothing else being changed; the tests only look at some behaviour after hundreds of cycles.',
  ['src/Nar.rs'], [('say a term', 'src/Nar.rs inputT, inputT2'), ('say a text', 'src/Nar.rs inputN')],
  note='The state is proved equal to the state before with exactly the stated change, using the contracts of C23, C24, C29 and C33. In the branch that teaches a contingency the procedural memory reachable through the declarative memory is excluded (it may be the same object). Preconditions: the invariants of goals and memories, counters below 2^63 - 2; lemma_sayable shows that everything that can be read satisfies the rest.')
P('C35', 'Dual numbers follow the rules of differentiation, and vectors those of linear algebra',
  'Sum, difference, product, quotient, exponential, scalar product, ReLU (0 with derivative 0 for values <= 0) and the logistic function of numbers with derivatives have the value of the function and the derivative that the rules of differentiation give; the logistic function is a finite value in [0,1] for every finite argument. A neuron is the activation (0: ReLU, other: logistic) of the scalar product of its weights with the inputs plus the bias. A network built from a list of parameters uses every parameter once and in order (for every neuron of the hidden layer its weights, then its bias times 15; then the same for the output layer with biases times 8 and logistic activation), moves the index by exactly the number of parameters, and has derivative 1 exactly at the chosen parameter. Sum, scaled sum, multiple, scalar product and length of vectors are the mathematical ones, and the similarity of two vectors is the cosine of their angle, in [-1,1].',
  ['inputs'], 'all numbers, vectors and networks', 'The statements are about all arguments; no test touches this code.',
  ['src/ad.rs', 'src/mlutils.rs', 'src/Nn.rs'], [('dual numbers', 'src/ad.rs add, sub, mul, div, exp, dot, reluAct, sigmoidAct, calc'), ('vectors', 'src/mlutils.rs vecAddScale, vecAdd, vecScale, vecDot, vecLen, calcCosineSim'), ('networks', 'src/Nn.rs buildNnFromParameters')],
  note='Proved over the reals (A-REAL; A-EXP for the exponential); the Cauchy-Schwarz inequality is a lemma. Preconditions: no division by zero, at least one weight and at least as many inputs, second vector at least as long, nonzero vectors for the cosine, enough parameters. Overflow is not modelled by the proof; the replay covers the logistic function up to +-1500.')
P('C36', 'Every line of input does what its command says and nothing else',
  'A line is taken without the line ends at its end. No line, in whatever script, crashes the reasoner. "!QQ", and no other line, asks to quit. A comment (starting with "//"), an empty line, "!QQ" and "!pse" change nothing. "!spA" does the first and "!spB" the second half of a procedural step, any other line that starts with "!sp" both halves in this order. "!s" does one reasoning cycle, "!sN" with a whole number N does N cycles (none if N is not positive), and any other line that starts with "!s" changes nothing. "!dtf" only flushes the declarative tasks. "!por execinj", "!por nlpRel0" and "!por NOP name" add exactly one op at the end, with the name ^nal9_exeAndInject, ^nlpRel0 or the given name; every other line that starts with "!por " changes nothing. "!peb 0" and "!peb 1" only turn babbling off and on. "!.nlp text" goes to the language module. "!dt" and "!dmd" change nothing and answer the credits of the tasks and one line with the number of concepts; no other line has an answer. Every other line is said to the reasoner as C34 says.',
  ['inputs'], 'all lines and states of the reasoner', 'The lines are arbitrary text from the shell and the network; the tests use a handful of fixed ASCII lines.',
  ['src/NarInputFacade.rs', 'src/OpLib.rs'], [('lines', 'src/NarInputFacade.rs input, trimNewline'), ('names of ops', 'src/OpLib.rs retName of OpNop, Op_nal9__exec_and_inject, Op__nlp_rel_0')],
  note='The relation between line, state before, state after, answer and quit flag is proved for all texts. The parts that a line starts are opaque relations (A-PART); what the language module does is not covered (it needs a database). The text of the answer of "!dmd" is checked by the replay only.')
P('C37', 'What is learned from the trace is what was observed',
  'A step of learning leaves the trace as it is and satisfies the goals of its last event as C28 says. With fewer than three events nothing is learned. Otherwise the configured number of samples is taken. A sample chooses one or more (at most the configured number) different executed operations of the trace, an event before the first of them, and the last or the last but one event, which must come after them; only when the trace has no operation, or starts with one, a sample may choose nothing. A sample whose outer two events are different and are no operations is sent to exactly one worker, once, with the current time; any other sample teaches nothing. What is sent is the eternal judgement <(first event, operations in their order) =/> last event>, with the evidence ids of exactly these events in order, the interval that the time between the last operation and the last event falls into, and n positive of n observations, where n is what the first op registered under the name of the first operation says. Every such choice can be drawn.',
  ['inputs', 'histories'], 'all traces, ops, interval tables, configurations and random choices', 'The choice is random over arbitrary traces; tests only observe that some behaviour is learned after many steps.',
  ['src/NarProc.rs'], [('sampling', 'src/NarProc.rs TraceDefault::step'), ('parts', 'src/NarProc.rs calcIdxsOfOps, checkIsCallableOp, try_build_implSeq, findMinTableIdx, ret_op_by_name')],
  note='Postcondition: there is a list of choices, one per sample, all legal, such that the channels hold exactly what was there plus what these choices teach. Preconditions: event times are not negative, at least one worker, a nonempty interval table, at least one operation allowed. That the drawing of different operations ends (with probability 1) and that every choice can be drawn is not proved; the replay checks the latter by 2400 samples per trace.')
P('C38', 'An anticipation ends by being met or by missing its deadline, and only a missed deadline counts against its contingency',
  'The first half of a procedural step drops every anticipation whose predicted event is among the last events of the trace, as many as the perception window says. Each of the others whose deadline is not after the current time is dropped too, and adds exactly one observation without success to its contingency; all others stay, in order, with their deadline. Nothing else of any contingency changes, an anticipation that was met adds nothing, time and trace stay as they are, and the trace is learned from exactly once as C37 says.',
  ['inputs', 'histories'], 'all traces, windows, times and sets of anticipations, also several of the same contingency', 'Confirmation and refutation depend on the exact moment and on what else is anticipated; no test looks at a refuted anticipation.',
  ['src/NarProc.rs'], [('anticipation', 'src/NarProc.rs narStep0')],
  note='Exact postcondition over a ghost heap of contingencies (A-HEAP). Precondition: what is anticipated is a contingency with counted evidence, with room for as many more observations as there are anticipations (A-COUNT).')
P('C39', 'An observation is counted once for every contingency it supports, and is stored only when there is none',
  'The worker handles every observed contingency it is sent, in order, and never crashes. An observation supports a stored contingency which is found under its condition or consequence, says the same, has no evidence in common with it, and whose interval (the shortest, if it was taught without one) includes the observed one. Every contingency it supports, however often the memory lists it, gets its positive and total counts and its evidence ids added exactly once, and nothing else of the memory changes. When it supports none it is stored as C24 says, with the limit of beliefs per concept and the time it was observed at, and no stored contingency changes.',
  ['inputs', 'histories'], 'all memories and all sequences of observations', 'Evidence must not be counted twice or lost for any history; tests only see that some behaviour is learned.',
  ['src/NarProc.rs'], [('worker', 'src/NarProc.rs narInit (the closure of the worker thread)')],
  note='The body of the closure given to thread::spawn is extracted and proved, for all sequences of messages, against a relation of memories (worked/filed/counted1); that a contingency listed twice is counted once follows from the merged evidence overlapping the observation. The worker is read on its own (A-SEQ).')
P('C40', 'A procedural step decides for the best supported reaction, acts once, forgets and plans, and changes nothing else',
  'The second half of a procedural step never crashes. Candidates are: for each of the last events, as many as the perception window says, the best goal that this state calls for as C28 says; every queued answer, with the goal it is for; and, for the last event, a plan of one or two stored contingencies, each drawn from those that begin with what is predicted so far, which ends at a goal, with the desire carried back from that goal as C15 says. The candidate that is decided for is one of them, and no reaction and no answer promises more. If its expectation is above the decision threshold, it has a contingency as evidence and it is a sequence that ends in an operation, then this operation is added to the goals as C29 says, with the truth value and the evidence ids of the contingency; else no goal is added. Then the first one of highest expectation among the active goals which are desired and above the threshold is pursued, if it has evidence: it is active no more, its desirability becomes 0, and, if anticipation is enabled, its contingency is anticipated with the current time plus its interval (the shortest one, if it was taught without one) as deadline. Only when no goal is pursued, and babbling is enabled, an op that allows babbling may be picked, with {SELF} as argument, and every such op can be picked. What is picked is called exactly once with its arguments, if an op of that name is registered, and is then remembered as an event at the current time. The trace keeps its last 20 events. The procedural memory is limited as C18 says exactly when time mod 101 is 1, and the goals as C27 says exactly when time mod 13 is 1. After that goals are only derived as C30 and C31 say. Queued answers are used up, time is one later, and nothing else changes.',
  ['inputs', 'histories'], 'all traces, goals, memories, answers, ops, configurations and random choices', 'The decision is a maximum over three sources for any history of goals and evidence; the tests only observe that some behaviour is learned after hundreds of steps.',
  ['src/NarProc.rs'], [('step', 'src/NarProc.rs narStep1, narStep1::cloneEvidence')],
  note='Postcondition: there are intermediate states and a candidate such that the state after follows from the state before by these relations (stepped), over the ghost heap of goals and the contracts of C08, C15, C18, C24 to C31. Preconditions: the invariants of goals and memory, intervals inside the table, fewer goals than 2^63. That a drawn plan which promises more is taken, that every op that allows babbling can be picked, and that the queue is empty after a goal was added are checked by the replay only. A-DEPTH (depths of goals stay representable while goals are derived), A-OPPURE (an op does not touch the reasoner), A-CLOCK (any time may pass).')
