#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                     observe_at=observe, hook_needed=None)))
I = ['inputs']; H = ['inputs', 'histories']
NC='src/nlp_common/'; PM='src/phrase_models/'; SW='src/sw_models/'; IM='src/incr_models/'; EC='src/error_correction/'; SD='src/stack_dec/'

p('C01', 'Fixed-size bitsets obey set algebra, shift, add and order laws',
  'A bitset behaves as a set of bit positions: after any sequence of set, reset, and, or, xor, complement, difference, shift and assignment operations, test, count, equality and ordering agree with the mathematical set. Shifts move every bit by exactly the given distance and drop those pushed out, and addition is addition modulo two to the width.',
  H, 'every operand value and every operation sequence up to the bound, for widths below, at and above one machine word',
  'The suite never exercises the class; word-boundary and full-width shift cases are a vanishing fraction of the inputs.',
  [NC+'Bitset.h'], [('Bitset operators', NC+'Bitset.h')], ['test()/count()/any()/operator<'])
p('C02', 'Tries and ordered vectors behave as finite maps',
  'A trie or ordered vector holds exactly the keys inserted, each with its last stored value; lookups, size, iteration order, copies and clearing agree with an ordinary ordered map after any history of operations.',
  H, 'every history of insert/find/erase/clear of bounded length over arbitrary keys',
  'Existing tests use a few fixed keys; order- and collision-dependent structure needs all short histories.',
  [NC+'OrderedVector.h', NC+'Trie.h', NC+'TrieVecs.h'], [('OrderedVector::insert/find', NC+'OrderedVector.h'), ('Trie::insert', NC+'Trie.h'), ('TrieVecs::insert', NC+'TrieVecs.h')], ['find, size, iterators'])
p('C03', 'Word alignment matrices: set operations and symmetrisation',
  'A word alignment matrix is a set of links between two sentences of given lengths: union, intersection, transposition, alignment-vector import and equality agree with the set definition. Every symmetrised alignment contains the intersection of the two directed alignments, and those that grow from the intersection stay inside their union.',
  I, 'every pair of matrices up to the size bound', 'The suite checks a handful of fixed matrices; the number of matrix pairs is exponential.',
  [NC+'WordAligMatrix.cc', NC+'WordAligMatrix.h'], [('symmetr1/symmetr2/growDiagFinal', NC+'WordAligMatrix.cc')], ['getValue for all cells'])

p('C04', 'Text fields: splitting, joining and line reading lose nothing',
  'Splitting a line on blanks yields exactly its maximal non-blank runs in order, joining them with single blanks and splitting again gives the same words. The field reader returns every line of a stream (last one included, with or without a final newline), and the n-th field of each line.',
  I, 'every text up to the length bound over an alphabet that includes blanks, tabs, separators and newlines',
  'Only ordinary sentences are tested; empty lines, leading/trailing blanks and unterminated last lines are not.',
  [NC+'StrProcUtils.cc', NC+'AwkInputStream.cc', NC+'getline.cc'], [('stringToStringVector', NC+'StrProcUtils.cc'), ('AwkInputStream::getln', NC+'AwkInputStream.cc')], ['returned vectors, NF, NR, dollar()'])
p('C05', 'Vocabularies are bijections and survive printing and loading',
  'A vocabulary maps each distinct word to one index and back: adding a word twice keeps its index, distinct words never share an index, and unknown words map to the unknown index. A vocabulary that is written to a file and loaded again gives every word the same index.',
  H, 'every history of additions of short words and every written vocabulary', 'Tests use few words, none of them colliding with special symbols or containing unusual characters.',
  [NC+'SingleWordVocab.cc', IM+'IncrNgramLM.cc'], [('addSrcSymbol/stringToSrcWordIndex', NC+'SingleWordVocab.cc')], ['stringToWordIndex / wordIndexToString'])
p('C06', 'Counts, log-counts and probabilities obey their arithmetic',
  'Adding and subtracting counts, converting between linear and logarithmic counts, and log-domain sums are consistent with real arithmetic: log-sum is symmetric, never below its larger argument, and zero is its neutral element.',
  I, 'every pair of values of the stated ranges', 'Rounding and sentinel values (zero count, log zero) are corner inputs.',
  [NC+'MathFuncs.cc', NC+'Count.h', NC+'LogCount.h', NC+'Prob.h'], [('MathFuncs::lns_sumlog', NC+'MathFuncs.cc')], ['returned numbers'])
p('C07', 'Phrase tables agree with the reference finite-map semantics',
  'Every phrase-table backend stores the same thing: after any history of adding, incrementing and clearing entries, the joint count of a pair, the source and target marginals, the set of translations of a source phrase (and of sources of a target phrase) and iteration agree with a plain map from phrase pairs to counts.',
  H, 'every bounded history of table operations over arbitrary short phrases', 'The suite uses a few fixed phrases per backend; prefix-related and colliding keys need arbitrary phrases.',
  [PM+'StlPhraseTable.cc', PM+'HatTriePhraseTable.cc', PM+'LevelDbPhraseTable.cc'], [('incrCountsOfEntry', PM+'StlPhraseTable.cc')], ['cSrcTrg, cSrc, cTrg, getEntriesForTarget, iterators'])
p('C08', 'Disk key encodings of phrases and n-grams are lossless',
  'The byte-string key under which a phrase pair or n-gram is stored decodes back to exactly the same word indices, distinct keys never collide, and source keys, target keys and pair keys never clash.',
  I, 'every index vector up to the length bound, over all index values the encoding supports', 'Collisions occur only for special index values (multiples of the base).',
  [PM+'LevelDbPhraseTable.cc', PM+'HatTriePhraseTable.cc', IM+'LevelDbNgramTable.cc'], [('vectorToString/stringToVector', PM+'LevelDbPhraseTable.cc'), ('vectorToKey/keyToVector', IM+'LevelDbNgramTable.cc')], ['encoded strings, decoded vectors'])
p('C09', 'Consistent phrase extraction is sound and complete',
  'From a word-aligned sentence pair the extractor returns only phrase pairs that are consistent with the alignment (no link leaves the pair, at least one link inside) and within the length limits, each once, and every consistent pair within the limits whose source side begins and ends at aligned words. Segmentation-based extraction weighs a pair by the share of the bisegmentations of the sentence pair that contain it.',
  I, 'every alignment matrix of every pair of sentence lengths up to the bound', 'A handful of alignments are tested; consistency depends on the whole matrix.',
  [PM+'PhraseExtractionTable.cc'], [('extractConsistentPhrases', PM+'PhraseExtractionTable.cc')], ['returned phrase pairs'])
p('C11', 'Alignment files: GIZA parsing, container counting and set operations',
  'An alignment in GIZA format denotes exactly the links it lists; storing alignments in a container and printing them back preserves sentences, links and multiplicities (a repeated alignment is counted, a different alignment of the same pair is kept apart), the transposed reading swaps source and target consistently, and container-wise union, intersection, sum and symmetrisation combine the alignments of the same sentence pair.',
  I, 'every bounded alignment', 'The suite parses few fixed records.',
  [PM+'AlignmentContainer.cc', PM+'AlignmentExtractor.cc'], [('getNextAlignment', PM+'AlignmentExtractor.cc')], ['printed records, matrices'])
p('C12', 'Phrase models reload as they were written',
  'A phrase model printed to a file and loaded again contains the same phrase pairs with the same counts, and derived conditional probabilities are the ratio of joint to marginal counts.',
  I, 'every small phrase model over arbitrary words', 'Round trips are only tested on one toy corpus.',
  [PM+'_incrPhraseModel.cc', PM+'WbaIncrPhraseModel.cc'], [('printTTable/load_ttable', PM+'_incrPhraseModel.cc')], ['counts before and after'])
p('C13', 'Segment-length and source-cut tables are lossless counters',
  'Source segment-length tables return exactly the counts that were added and zero elsewhere, and a table that is printed and loaded again is equal to the original; the length, cut and jump probability tables give distributions (never above one, summing to at most one) that depend only on the recorded positions.',
  H, 'every history within bounds', 'Indices at the edges of the fixed-size storage are not tested.',
  [PM+'SegLenTable.cc', PM+'TrgSegmLenTable.cc', PM+'SrcSegmLenTable.cc', PM+'TrgCutsTable.cc'], [('SegLenTable::incrCount', PM+'SegLenTable.cc')], ['table queries, printed files'])
p('C14', 'N-gram count tables agree with the reference finite map',
  'N-gram tables return for each n-gram and history exactly the accumulated counts and zero for what was never counted, the conditional probability of a word is the ratio of n-gram to history count (none when the history was never seen), listings by history or by word hold exactly the counted n-grams, and the in-memory and LevelDB tables agree.',
  H, 'every bounded history of updates over arbitrary n-grams', 'Few fixed n-grams are tested.',
  [IM+'vecx_x_incr_cptable.h', IM+'LevelDbNgramTable.cc', IM+'IncrEncoder.h'], [('incrCondProbTable', IM+'vecx_x_incr_cptable.h')], ['counts, probabilities'])
p('C15', 'Language model scores are normalised and independent of state use',
  'The interpolated n-gram model gives every next word a probability within [0,1] that interpolates the relative frequencies of all orders; over the vocabulary they sum to one when the history and its suffixes were seen (at most one otherwise). Scoring word by word through states equals scoring from the explicit history, sentences and corpora add up their words, blank lines are no sentences, and models and vocabularies survive printing and loading.',
  I, 'every count table, history and interpolation weight within bounds', 'Normalisation is a for-all-histories statement; tests check a few fixed values.',
  [IM+'_incrJelMerNgramLM.h', IM+'_incrNgramLM.h', IM+'_incrInterpNgramLM.h'], [('getNgramLgProb', IM+'_incrNgramLM.h')], ['log-probabilities'])
p('C16', 'Word completion proposes the most frequent matching suffix',
  'For a prefix the word predictor proposes stored words that extend it, each candidate with its true count and one candidate per distinct count; the best completion is a most frequent one, after a history the one the language model finds most probable, and nothing is proposed when no stored word extends the prefix. Sentences retained for later do not count before their batch is complete, and clearing forgets all.',
  H, 'every bounded history of added strings and every query', 'Ties, repeated and prefix-of-each-other words are not tested.',
  [EC+'WordPredictor.cc'], [('getSuffixList', EC+'WordPredictor.cc')], ['returned suffixes'])
p('C17', 'Lexical translation tables are maps and survive save/load',
  'The parameter tables of the single-word models (lexical tables in memory and on LevelDB, HMM and IBM 2 alignment tables) are maps: they return the last numerator stored for each pair and the last denominator stored for each key, report exactly what is stored and zero otherwise, list exactly the stored translations of a word, and written tables load back unchanged into any table of their kind.',
  H, 'every bounded history of set/query/clear', 'Few fixed entries are tested.',
  [SW+'IncrLexTable.cc', SW+'_incrLexTable.h', SW+'IncrHmmAligTable.cc', SW+'IncrIbm2AligTable.cc'], [('setLexNumer', SW+'IncrLexTable.cc')], ['getLexNumer/getTransForTarget'])
p('C19', 'Expected-count buffers return what was stored per sentence',
  'A buffer of alignment statistics returns for each sentence and position the value last stored, missing entries read as zero probability, and with a retention limit exactly the most recently introduced sentences are kept. Preparing an entry keeps the values it holds, reset and clear forget them, and files reload the values and the limit into any buffer.',
  H, 'every bounded history of writes over sentence indices', 'Window wrap-around needs particular histories.',
  [SW+'anjiMatrix.cc', SW+'anjm1ip_anjiMatrix.cc'], [('anjiMatrix::set', SW+'anjiMatrix.cc')], ['anji()'])
p('C20', 'Sentence storage returns sentence pairs in order with their counts',
  'The sentence handlers return at every position the words and the count of that pair, for pairs of files and for pairs added later and in any order of access; printed pairs read back with the same words and counts, and a source sentence without a target sentence is an error.',
  H, 'every bounded corpus and order of accesses', 'Random access order and mixed file/added storage are not tested.',
  [SW+'LightSentenceHandler.cc'], [('getSentencePair', SW+'LightSentenceHandler.cc')], ['returned sentences'])
p('C22', 'Best word alignments are valid and optimal under the model',
  'The best alignment a single-word model reports has one source position (or none) per target word, its score is the score of that alignment under the model, no other alignment of the two sentences scores higher, and the pair is at least as likely as its best alignment. Transition probabilities of the alignment model add up to one.',
  I, 'every table of model parameters and sentence pair within bounds', 'Optimality quantifies over all alignments and parameter tables.',
  [SW+'IncrIbm1AligModel.cc', SW+'_incrHmmAligModel.cc'], [('viterbiAlgorithm', SW+'_incrHmmAligModel.cc')], ['alignment and score'])
p('C23', 'Edit distance is the minimum-cost edit script',
  'The computed distance equals the cost of the cheapest sequence of substitutions, insertions and deletions turning one sequence into the other, the reported operations realise that cost and produce the target sequence, and the prefix variant (non-empty prefixes) is the minimum over all extensions allowed for free.',
  I, 'every pair of strings or word sequences up to the length bound and every cost setting in range', 'Minimality quantifies over all edit scripts.',
  [EC+'EditDistForVecString.cc', EC+'EditDistForStr.cc', EC+'_editDist.h'], [('calculateEditDist', EC+'EditDistForVecString.cc')], ['distance, operations'])
p('C24', 'Word graphs: best paths, pruning and useful states are exact',
  'Over any acyclic word graph, the best path is a real path from the initial to a final state with maximal score, n-best lists are the n best paths in order, pruning keeps every path inside the threshold (the best included), and a graph printed and loaded is the same graph.',
  I, 'every word graph up to the stated number of states and arcs with arbitrary scores', 'Optimality over all paths of all graphs is beyond fixed examples.',
  [EC+'WordGraph.cc', EC+'WgProcessorForAnlp.h'], [('bestPathFromFinalStateToIdx / obtainNbestList', EC+'WordGraph.cc')], ['paths, scores, arcs'])
p('C26', 'Hypothesis stacks are bounded best-first containers',
  'A hypothesis stack returns hypotheses in non-increasing score order, never holds more than its size limit, and what it drops is never better than what it keeps; n-best tables return translations in order of score.',
  H, 'every bounded history of push/pop/resize with arbitrary scores', 'Score ties and limit boundaries need all short histories.',
  [SD+'SmtStack.h', SD+'_smtMultiStack.h', SD+'SmtMultiStackRec.h', SD+'HypStateDict.h', NC+'NbestTableNode.h', NC+'NbestTransTable.h'], [('SmtStack::push', SD+'SmtStack.h')], ['popped hypotheses'])
p('C27', 'XML translation constraints are parsed and enforced exactly',
  'In a source sentence with annotated spans, the markup is removed, each annotation constrains exactly its span to its target text, and a hypothesis is accepted exactly when it translates each constrained span by the given text.',
  I, 'every bounded annotated sentence and hypothesis', 'Malformed, empty and adjacent annotations are not tested.',
  [SD+'TranslationMetadata.h', SD+'JsonTranslationMetadata.h'], [('obtainTransConstraints', SD+'TranslationMetadata.h')], ['constraints, accepted hypotheses'])
p('C29', 'Decoder hypotheses cover each source word exactly once',
  'However hypotheses are expanded, each source word is translated at most once, a complete hypothesis translates every source word, the score of a hypothesis is the sum of its steps, and the best output has the maximal score within the search limits.',
  H, 'every sequence of expansions on bounded sentences', 'Coverage is an invariant over all expansions.',
  [SD+'PhrHypState.cc', SD+'PhrHypData.cc', SD+'SourceSegmentation.h'], [('extendHypDataIdx', SD+'PhrLocalSwLiTm.cc')], ['coverage, alignment, score'])
p('C30', 'Translation quality measures stay in range and are exact on identity',
  'BLEU, chrF, WER and related measures lie in their documented range, reach their best value exactly on identical texts, and depend only on the n-gram and edit statistics of the texts.',
  I, 'every pair of bounded sentences', 'Empty and very short sentences are corner inputs.',
  [SD+'bleu.cc', SD+'chrf.cc', EC+'WER.cc'], [('Bleu', SD+'bleu.cc')], ['measures'])
p('C31', 'Tuning weights move as the MIRA rule states',
  'One online update never increases the loss-augmented margin violation on the example it was given, leaves weights unchanged when there is no violation, and never yields non-finite weights.',
  I, 'every bounded n-best list', 'One fixed example is tested.',
  [SD+'KbMiraLlWu.cc'], [('update', SD+'KbMiraLlWu.cc')], ['weights'])
p('C32', 'Assisted translation honours the validated prefix',
  'The completion proposed for a user-validated prefix begins with exactly that prefix, whatever the word graph.',
  I, 'every bounded word graph and prefix', 'Prefix compatibility must hold for every prefix, not the few tested.',
  [EC+'PrefAlignInfo.h', EC+'NonPbEcModelForNbUcat.cc', SD+'WgUncoupledAssistedTrans.h'], [('combineStrings', SD+'WgUncoupledAssistedTrans.h')], ['returned text'])
p('C33', 'Server users are mapped to stable, distinct identifiers',
  'The server gives each user name one identifier, different names different identifiers, generated user names are new, and the mapping is the same whatever the interleaving of clients.',
  ['histories', 'schedules'], 'every bounded history of client requests', 'Only sequential use is exercised.',
  [SD+'ThotDecoderUserPars.h', SD+'ThotDecoder.cc'], [('get_idx_for_user', SD+'ThotDecoder.cc')], ['identifiers'])
p('C34', 'Socket messages arrive whole under short reads and writes',
  'A string or integer sent over a socket is received exactly as sent however the transport splits it into pieces, and an early end of stream or an error is reported, never turned into made-up data or memory corruption.',
  ['inputs', 'fault_sequences'], 'every message up to the size bound and every schedule of short transfers, end of stream and errors', 'Tests never exercise the socket layer; loopback transfers are not split.',
  [NC+'BasicSocketUtils.cc', SD+'StackDecSocketUtils.cc', SD+'client_server_defs.h'], [('recvStlStr/writeStr', NC+'BasicSocketUtils.cc')], ['received values, exceptions'])
p('C35', 'Decoder locking: no lock is leaked or taken twice',
  'Every server operation releases every lock it takes on all outcomes, failures included, takes no lock it already holds, and locks are always nested in one global order.',
  ['schedules', 'inputs'], 'every operation outcome', 'Error outcomes are not exercised by tests.',
  [SD+'ThotDecoder.cc'], [('pthread_mutex_lock/unlock pairs', SD+'ThotDecoder.cc')], ['lock state after each call'])
p('C36', 'Corpus preprocessing tools are reversible',
  'Categorisation, tokenisation and recasing helpers keep the words they do not own: tokenising then detokenising plain text and categorising then decategorising a sentence give the text back.',
  I, 'every sentence', 'A few sentences are tested.',
  ['utils/thot_preproc.py'], [('tokenize/detokenize', 'utils/thot_preproc.py')], ['output text'])
p('C37', 'Model descriptors and options are read back as written',
  'Command-line options and model descriptor files are read field by field: the value returned for an option is the one given, a missing option is reported, and a descriptor lists exactly the models it names.',
  I, 'every bounded argument vector or descriptor', 'Only well-formed files are tested.',
  [NC+'options.cc', NC+'ModelDescriptorUtils.cc'], [('readInt/readString', NC+'options.cc')], ['returned values'])
p('C38', 'Downhill simplex only improves and stays consistent',
  'The simplex optimiser returns the best point it evaluated, its objective value is that of the returned point, and it stops within the iteration limit.',
  I, 'every bounded sequence of objective values', 'One function is minimised in tests.',
  ['src/downhill_simplex/step_by_step_dhs.cc'], [('step_by_step_simplex', 'src/downhill_simplex/step_by_step_dhs.cc')], ['returned point'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
