"""which contracted functions decide which property"""
ASSUME = {
 'REAL': 'A-REAL: f64 arithmetic is treated as exact arithmetic over the reals (rounding, infinities and NaN are not modelled by the deductive proof)',
 'EXTRACT': 'A-EXTRACT: the definitional rewrites of vx preserve meaning (for -> indexed while, iterator chains, compound assignment, printing dropped); listed in DESIGN.md',
 'CLONE': 'A-CLONE: Box/Vec/String clone and Vec push/index/len behave as specified by vstd; Term::clone used through its separately proved contract',
 'TERM': 'A-TOTAL: panics are excluded by obligation, stack exhaustion and allocation failure are not modelled',
 'LOCK': 'A-LOCK: lock erasure, Arc<RwLock<T>> values are treated as plain values (sequential reading of the critical section)',
 'RAND': 'A-RAND: the random source is an arbitrary value in its documented range',
 'SORT': 'A-SORT: slice sort_by returns a sorted permutation',
 'MAP': 'A-MAP: std HashMap behaves as a finite map keyed by deep term value (Term derives Hash and Eq); iteration visits every entry once in an unspecified order',
 'UNIQ': 'A-UNIQ: the memory is the only owner of its concepts while it is written (Arc::get_mut succeeds)',
 'ARC': 'A-ARC: cloning an Arc (or a vector of Arcs) yields the same object; derived Clone of Sentence copies field by field',
 'OP': 'A-OP: the name of an op is a pure function of the op',
 'HEAP': 'A-HEAP: goals are shared mutable cells; the handles of one goal system point into one heap, locks are taken one after the other (no other thread changes a goal during the call), batches and index are owned by the goal system',
 'NOM': "A-NOM: nom's tag and take_while1 (and `?` on their results) behave as documented: a tag matches exactly its text, take_while1 takes the longest non-empty run of accepted characters",
 'STR': 'A-STR: std string operations (contains, replace, ends_with, strip_suffix, rsplit_once, split, trim_end, pop, char classes, number parsing as a fixed partial function) behave as documented on sequences of characters',
 'EXP': 'A-EXP: the exponential function is positive and exp(-x) exp(x) = 1',
 'PART': 'A-PART: the parts a line starts (reading a sentence, reasoning cycles, procedural steps, flushing, language module) are opaque relations between states here; they end and do not panic',
 'CHAN': 'A-CHAN: a channel delivers every message once and in order, sending to a worker that lives succeeds, and receiving fails exactly when everything was received and the other side hung up',
 'SEQ': 'A-SEQ: the worker is read on its own: between two of its messages no other thread changes a belief (the locks make every single access atomic; interleavings are not modelled)',
 'COUNT': 'A-COUNT: the procedural memory holds evidence as counts only (it is filled by C24, C34 and C39 only), and the counts stay below 2^62',
 'DEPTH': 'A-DEPTH: while goals are derived in a step, their depth plus the number of rounds stays below 2^63 (an assume statement before each derivation)',
 'OPPURE': 'A-OPPURE: calling an op changes nothing of the reasoner (an op that does changes what comes after it)',
 'CLOCK': 'A-CLOCK: the clock is arbitrary; goals may be derived any number of times',
 'HANDLER': 'A-HANDLER: a callback records what it is told and does not reach back into the reasoner',
}
UNITS = {'decide': {'rlimit': 60}, 'learn': {'rlimit': 60}, 'antic': {'rlimit': 60}, 'nar': {'rlimit': 60}, 'parse': {'rlimit': 60}, 'narsese': {'rlimit': 60}, 'goal': {'rlimit': 60}, 'goal2': {'rlimit': 60}, 'mem': {'rlimit': 60}, 'cycle': {'rlimit': 60}, 'proc': {'rlimit': 60}, 'rules2': {'rlimit': 40}}
PROPS = {
 'C01': dict(own={'tv': '*'}, replay='tv', assume=['REAL', 'EXTRACT'], kani=['neg_range', 'exp_range', 'int_range', 'ded_range', 'abd_range', 'comp_range', 'dedgoal_range', 'w2c_range']),
 'C02': dict(own={'tv': '*'}, replay='tv', assume=['REAL', 'EXTRACT']),
 'C03': dict(own={'tv': ['rev', 'w2c', 'c2w'], 'tvvec': '*'}, deps=[], replay='tv', assume=['REAL', 'EXTRACT']),
 'C04': dict(own={'stamp': ['checkOverlap', 'checkSame', 'newStamp']}, replay='stamp', assume=['EXTRACT']),
 'C05': dict(own={'stamp': ['merge']}, replay='stamp', assume=['EXTRACT']),
 'C06': dict(own={'term': ['Term_clone', 'checkEqTerm']}, replay='term', assume=['EXTRACT', 'CLONE', 'TERM']),
 'C07': dict(own={'term': ['retSubterms2', 'retSubterms', 'retUniqueSubterms', 'calcComplexity', 'count_occurence_subterms']}, replay='term', assume=['EXTRACT', 'CLONE', 'TERM']),
 'C08': dict(own={'unify': ['checkAssigned', 'checkSameVal', 'unify2', 'unify']}, deps=['term'], replay='unify', assume=['EXTRACT', 'CLONE', 'TERM']),
 'C09': dict(own={'unify': ['unifySubst']}, deps=['term'], replay='unify', assume=['EXTRACT', 'CLONE', 'TERM']),
 'C10': dict(own={'termutils': '*'}, deps=['term'], replay='term', assume=['EXTRACT', 'CLONE', 'TERM']),
 'C11': dict(own={'rules1': '*'}, deps=['term', 'tv'], replay='rules', assume=['REAL', 'EXTRACT', 'CLONE', 'TERM']),
 'C12': dict(own={'rules2': '*'}, deps=['term', 'tv', 'unify'], replay='rules', assume=['REAL', 'EXTRACT', 'CLONE', 'TERM']),
 'C13': dict(own={'infer': '*'}, deps=['stamp', 'sentence', 'rules1', 'rules2', 'unify', 'term', 'tv'], replay='rules', assume=['REAL', 'EXTRACT', 'CLONE', 'TERM', 'LOCK']),
 'C14': dict(own={'sentence': '*'}, deps=['term'], replay='sent', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK']),
 'C15': dict(own={'goalinf': ['retDesire', 'infGoalBelief', 'infGoalDetach']}, deps=['stamp', 'sentence', 'term', 'tv'], replay='sent', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK']),
 'C16': dict(own={'goalinf': ['helper', 'intro_vars', 'matchandintro_var1', 'matchandintro_var1_sentence']}, deps=['sentence', 'term'], replay='sent', assume=['EXTRACT', 'CLONE', 'LOCK', 'RAND']),
 'C17': dict(own={'mem': ['make', 'storeInConcepts2', 'storeInConcepts']}, deps=['sentence', 'term', 'stamp', 'tv'], replay='mem', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK', 'SORT', 'MAP', 'UNIQ']),
 'C18': dict(own={'mem': ['limitMemory']}, deps=['sentence', 'term', 'tv'], replay='mem', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK', 'SORT', 'MAP', 'UNIQ']),
 'C19': dict(own={'mem': ['ret_beliefs_of_concept', 'ret_beliefs_by_terms_nonunique']}, deps=['term'], replay='mem', assume=['EXTRACT', 'CLONE', 'LOCK', 'MAP', 'ARC']),
 'C20': dict(own={'cycle': ['memReviseBelief']}, deps=['stamp', 'sentence', 'term', 'tv'], replay='cycle', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK', 'MAP', 'UNIQ', 'ARC']),
 'C21': dict(own={'cycle': ['qaTryAnswer']}, deps=['unify', 'sentence', 'term', 'tv'], replay='cycle', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK', 'HANDLER']),
 'C22': dict(own={'cycle': ['taskCalcCredit', 'taskSelByCreditRandom', 'taskSelByCreditTop', 'task2SelByCreditRandom', 'conceptSelByAvRandom', 'tasksSelHighestCreditIdx']}, deps=['sentence'], replay='cycle', assume=['REAL', 'EXTRACT', 'LOCK']),
 'C23': dict(own={'cycle': ['memAddTask', 'populateTaskByTermLookup', 'divCreditByComplexity']}, deps=['mem', 'stamp', 'sentence', 'term', 'tv'], replay='cycle', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK', 'SORT', 'MAP', 'UNIQ', 'ARC']),
 'C24': dict(own={'proc': ['mem_add_evidence_internal', 'mem_add_evidence', 'query_by_antecedent', 'query_by_consequence']}, deps=['mem', 'goalinf', 'stamp', 'sentence', 'term', 'tv'], replay='proc', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK', 'SORT', 'MAP', 'UNIQ', 'ARC', 'RAND']),
 'C25': dict(own={'proc': ['retPred', 'retSubj', 'retImplSeqOp', 'retSeqLast', 'retSeqCond', 'retSeqCond2', 'is_seq', 'is_seqAndLastOp', 'ret_op_by_name', 'checkIsCallableOp', 'try_build_implSeq', 'calcIdxsOfOps', 'findMinTableIdx']}, deps=['termutils', 'term'], replay='proc', assume=['EXTRACT', 'CLONE', 'TERM', 'OP']),
 'C26': dict(own={'proc': ['limit', 'event_happened', 'force_flush', 'ret_last_events', 'ret_view']}, replay='proc', assume=['EXTRACT', 'LOCK', 'ARC']),
 'C27': dict(own={'goal': ['limitGoals', 'addEntry2', 'retEntries']}, deps=['sentence', 'term', 'tv'], replay='goal', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK', 'HEAP', 'SORT', 'MAP']),
 'C28': dict(own={'goal': ['event_occurred', 'query', 'is_desired', 'selHighestExpGoalByState', 'retSubSeqAsSeqOrTerm', 'retEntries']}, deps=['unify', 'sentence', 'term', 'tv'], replay='goal', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK', 'HEAP']),
 'C29': dict(own={'goal': ['makeGoalSystem', 'addEntry', 'addEntry2', 'checkSetContains', 'convProcTermToQaTerm', 'enforce']}, deps=['stamp', 'termutils', 'term'], replay='goal', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK', 'HEAP', 'MAP']),
 'C30': dict(own={'goal2': ['deriveGoalsHelper', 'sampleAndInference']}, deps=['goal', 'proc', 'goalinf', 'stamp', 'sentence', 'term', 'tv'], replay='goal', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK', 'HEAP', 'MAP', 'ARC', 'RAND']),
 'C31': dict(own={'goal2': ['sample', 'binSearch']}, replay='goal', assume=['REAL', 'EXTRACT', 'LOCK', 'HEAP', 'RAND']),
 'C32': dict(own={'parse': '*'}, deps=['termutils', 'term'], replay='parse', assume=['EXTRACT', 'CLONE', 'TERM', 'NOM', 'STR']),
 'C33': dict(own={'narsese': '*'}, deps=['parse', 'sentence', 'term', 'tv'], replay='parse', assume=['REAL', 'EXTRACT', 'CLONE', 'TERM', 'STR']),
 'C34': dict(own={'nar': '*'}, deps=['goal', 'cycle', 'proc', 'narsese', 'mem', 'sentence', 'stamp', 'term', 'tv'], replay='nar', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK', 'HEAP', 'MAP', 'SORT', 'UNIQ', 'ARC', 'STR', 'NOM', 'RAND', 'TERM']),
 'C35': dict(own={'ad': '*'}, replay='ad', assume=['REAL', 'EXTRACT', 'EXP']),
 'C36': dict(own={'facade': '*'}, replay='facade', assume=['EXTRACT', 'LOCK', 'STR', 'PART', 'OP']),
 'C37': dict(own={'learn': '*'}, deps=['goal', 'proc', 'stamp', 'term'], replay='learn', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK', 'HEAP', 'ARC', 'RAND', 'SORT', 'OP', 'CHAN']),
 'C38': dict(own={'antic': ['narStep0']}, deps=['proc', 'term'], replay='learn', assume=['EXTRACT', 'CLONE', 'LOCK', 'HEAP', 'ARC', 'COUNT']),
 'C39': dict(own={'antic': ['worker']}, deps=['proc', 'mem', 'stamp', 'term'], replay='learn', assume=['EXTRACT', 'CLONE', 'LOCK', 'HEAP', 'ARC', 'RAND', 'CHAN', 'SEQ', 'COUNT']),
 'C40': dict(own={'decide': ['narStep1', 'cloneEvidence']}, deps=['goal2', 'goal', 'goalinf', 'proc', 'mem', 'unify', 'sentence', 'termutils', 'term', 'tv'], replay='decide', assume=['REAL', 'EXTRACT', 'CLONE', 'LOCK', 'HEAP', 'ARC', 'RAND', 'OP', 'OPPURE', 'CLOCK', 'DEPTH']),
}
