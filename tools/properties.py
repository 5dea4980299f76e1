#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script only so the text is easy to edit).
import json, os, re
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every trained model is a probability distribution after every context",
 "For every training text and every combination of training options, the model written by the fixed-order and by the variable-order trainer gives every vocabulary word (the unknown word included) a probability between 0 and 1 after every context, seen or unseen, and these probabilities sum to one up to the precision of the output format (a model written without its zero-probability n-grams also rounds back-off weights of at least 10^-0.001 to one for the n-grams it leaves out). When history is cleared at sentence starts the sentence-start word itself may carry (almost) no mass. (Texts of nothing but sentence starts are not training texts for the history-clearing mode.)",
 ["inputs","configurations"],
 "All training texts over a small alphabet (with line breaks and sentence tags) up to a length bound, times the option matrix (order, smoothing type, one or three discounts, held-out text, cutoffs, pruning, unknown removal, real-count pruning, growing scales, size target), times all contexts up to the model order.",
 "The existing tests build a handful of models from one file and compare one perplexity number; they never sum probabilities and never reach pruned contexts, exhausted contexts, clear-history or three-discount combinations.",
 ["src/InterKn_tmpl.hh","src/InterKn.hh","src/MultiOrderCounts_tmpl.hh","src/VarigramFuncs_tmpl.hh","src/TreeGram.cc","src/TreeGramArpaReader.cc","app/counts2kn.cc","app/varigram_kn.cc"],
 [("smoothed probability / back-off coefficient formulas","src/InterKn_tmpl.hh:kn_prob,kn_coeff,kn_coeff_3nzer"),("denominator and type bookkeeping","src/InterKn_tmpl.hh:estimate_bo_counts,estimate_nzer_counts,prune_gram,remove_sent_start_prob"),("model export","src/InterKn_tmpl.hh:counts2lm,counts2asciilm; src/TreeGramArpaReader.cc:write_interpolated")],
 ["model files written by counts2kn and varigram_kn"])

p("C02","Fixed-order models equal the textbook interpolated Kneser-Ney estimate",
 "Without pruning, the probability a fixed-order model gives to any word after any context equals the interpolated absolute-discounting recursion on the training text's counts: raw counts at the top order, the number of distinct preceding words (plus the raw count where the text or a sentence starts) below it, or raw counts everywhere when plain absolute discounting is requested. Discounts are the per-order leave-one-out values from the counts of counts (one, or three by count class, kept inside their documented bounds), and the lowest order interpolates with the uniform distribution over the vocabulary.",
 ["inputs","configurations"],
 "All texts over a small alphabet up to a length bound, for orders 1 to 6, one and three discounts, Kneser-Ney and absolute smoothing, with and without history clearing.",
 "The tests compare a total perplexity of one data set to a stored number with a tolerance; a wrong count for one n-gram shape, order or count class is invisible there.",
 ["src/InterKn_tmpl.hh","src/MultiOrderCounts_tmpl.hh","src/MultiOrderCounts.hh","src/sparse_matrix.c","app/counts2kn.cc"],
 [("count collection from text","src/MultiOrderCounts_tmpl.hh:InitializeCountsFromText"),("type counts","src/InterKn_tmpl.hh:estimate_bo_counts,estimate_bo_counts_absolute_discounting,estimate_nzer_counts"),("leave-one-out discounts","src/InterKn_tmpl.hh:calculate_leaveoneout_discounts"),("probability","src/InterKn_tmpl.hh:kn_prob,kn_coeff")],
 ["model files written by counts2kn","count files written by -W"])

p("C03","Variable-order growing yields exactly the KN model of the n-grams it selected",
 "Whatever n-grams the variable-order trainer decides to keep, the model it writes is the Kneser-Ney model of that n-gram set: a kept n-gram's effective count is its text count minus (count-1) for each kept one-word-left-extension, denominators and discount mass agree with those counts, and no n-gram is longer than the order limit or absent from the text. An n-gram context is accepted or rejected as a whole, and only when acceptance lowers the training code length plus the model cost at the given scale.",
 ["inputs","configurations","histories"],
 "All texts over a small alphabet up to a length bound times growing scale, order limit, smoothing variant, cached or streamed training data; every accept/reject history the growing algorithm goes through.",
 "The tests only check that a grown model has roughly the expected size and perplexity for one corpus; count drift after accept/reject sequences is not observable in them.",
 ["src/VarigramFuncs_tmpl.hh","src/MultiOrderCounts_tmpl.hh","src/Storage_tmpl.hh","src/InterKn_tmpl.hh","app/varigram_kn.cc"],
 [("tentative growing with undo","src/VarigramFuncs_tmpl.hh:reestimate_with_history,modify_model"),("fast search lists over the training data","src/Storage_tmpl.hh:initialize_fast_search_lists,init_fsl_file,fast_search_next")],
 ["count files written by varigram_kn -W","model files written by varigram_kn"])

p("C04","Cutoffs and pruning remove the right n-grams and re-estimate the rest",
 "With cutoffs, every n-gram (order two and up) whose count at the time its order is processed is at or below that order's cutoff is gone from the model and every other one is kept; with unknown-word removal no kept n-gram of order two or more contains the unknown word; with threshold pruning exactly the n-grams whose removal costs no more than the scaled threshold are removed (with cutoffs alone the threshold is zero, so n-grams whose removal costs no training probability go too). A pruned model is a subset of the unpruned one plus required prefixes, its lower-order counts are corrected for the removed n-grams unless plain discarding is asked for, and a larger threshold never leaves an n-gram set that the same rules would not give.",
 ["inputs","configurations"],
 "All texts over a small alphabet up to a length bound times cutoff vectors, discard/adjust mode, unknown removal, pruning thresholds, type or real counts, one or three discounts, Kneser-Ney or absolute smoothing.",
 "The tests run one or two fixed pruning settings on one corpus and look at a total perplexity; which n-gram is removed and how the remaining counts are corrected is not checked.",
 ["src/InterKn_tmpl.hh","src/Storage_tmpl.hh","src/MultiOrderCounts_tmpl.hh","app/counts2kn.cc","app/varigram_kn.cc"],
 [("pruning pass","src/InterKn_tmpl.hh:prune_model_fbase,prune_gram"),("real counts","src/Storage_tmpl.hh:initialize_fast_search_lists_for_pruning"),("zero-probability prefix completion","src/InterKn_tmpl.hh:remove_zeroprob_grams,add_zeroprob_grams,add_counts_for_backoffs")],
 ["count files and model files written by the trainers"])

p("C05","Format conversions preserve the model's distribution",
 "Writing a model as binary, as standard ARPA or as interpolated ARPA, and converting between these with the conversion tools in any order, changes no conditional probability of any word after any context beyond the text format's rounding, and keeps the order, the vocabulary and the set of n-grams. Re-converting an already converted file is stable: binary to ARPA to binary returns the same model.",
 ["inputs","histories"],
 "All small models (produced by training on all small texts, and hand-built back-off models with every placement of back-off weights) times all conversion paths up to a length bound.",
 "The tests convert no model; any drop of a back-off weight, node or word in a rarely used path goes unseen.",
 ["src/TreeGram.cc","src/TreeGramArpaReader.cc","src/ArpaReader.cc","src/HashGram_tmpl.hh","src/Endian.cc","app/arpa2bin.cc","app/bin2arpa.cc","app/arpa2arpa.cc"],
 [("binary format","src/TreeGram.cc:write,read"),("ARPA text format","src/TreeGramArpaReader.cc; src/ArpaReader.cc"),("interpolated to back-off rewriting","src/TreeGramArpaReader.cc:write_interpolated; app/arpa2arpa.cc")],
 ["files produced by arpa2bin, bin2arpa, arpa2arpa"])

p("C06","A truncated model file is never accepted as a model",
 "Reading a model file that was cut off at any byte before its end (binary or ARPA, as left behind by a crash or a full disk) is reported as an error with a nonzero exit, never accepted silently as a smaller or different model. (A cut that loses nothing of the model, such as the final newline, may be accepted with identical results.) An ARPA file that lost n-gram lines anywhere, or has some twice, while its header is unchanged, is rejected as well. The reader never hangs or accesses memory outside its own data while rejecting it.",
 ["crash_points"],
 "Every byte prefix of model files in each format (binary, ARPA, interpolated ARPA; several orders), read by every tool that loads models.",
 "No test reads a damaged file.",
 ["src/TreeGram.cc","src/ArpaReader.cc","src/TreeGramArpaReader.cc","src/HashGram_tmpl.hh","src/Vocabulary.cc"],
 [("read error checks","src/TreeGram.cc:read,read_nodes; src/ArpaReader.cc:read_error,next_gram; src/Vocabulary.cc:read")],
 ["exit status and stderr of bin2arpa, arpa2bin, perplexity"])

p("C07","Both model representations score identically, whatever the ARPA layout",
 "An ARPA model yields the same word probabilities when it is loaded into the tree representation and into the hash representation, with small or large index types, with n-gram lines in any order, with any mix of spaces and tabs, and with or without trailing zero back-off weights. The hit order reported for each scored word is the length of the longest stored n-gram used (not claimed when that n-gram is stored with zero probability).",
 ["inputs","configurations"],
 "All small back-off models over a bounded vocabulary and order (every subset of n-grams with their prefixes), all queries over all contexts, all permutations of n-gram lines and separator variants in the bound.",
 "The tests load one model in one layout.",
 ["src/TreeGram.cc","src/HashGram_tmpl.hh","src/TreeGramArpaReader.cc","src/ArpaReader.cc","src/GramSorter.cc"],
 [("tree search","src/TreeGram.cc:find_path,find_child,binary_search,log_prob_bo,log_prob_i"),("hash search","src/HashGram_tmpl.hh:log_prob_bo_helper,log_prob_i_helper"),("sorting","src/GramSorter.cc")],
 ["log_prob and last_order of loaded models","perplexity tool output"])

p("C08","Perplexity accounting matches the model's probabilities for every text",
 "For every text and option set, the reported total log-probability, perplexities, token, word, unknown, context-cue and sentence counts, hit rates and per-word stream equal what follows from multiplying the model's conditional probabilities over the text: unknown words are skipped (or scored, when asked), context cues and initial-history words are conditioned on but not scored, and words are delimited by line ends, listed break tokens or marked sub-words as configured. Every token is accounted for exactly once.",
 ["inputs","configurations"],
 "All texts over a small token alphabet (known words, unknown words, sentence tags, context cues, word-break tokens, sub-word marks, newlines) up to a length bound times scoring options.",
 "The tests check the totals for one text and default options only.",
 ["src/PerplexityFuncs.cc","src/PerplexityFuncs.hh","app/perplexity.cc"],
 [("scoring loop and counters","src/PerplexityFuncs.cc:logprob,logprob_file,print_results,print_hitrates")],
 ["perplexity tool stdout","logprob/token_logprob/word_logprob API"])

p("C09","Interpolated scoring is the exact linear mixture of the component models",
 "Scoring with several models and weights gives each word exactly the weighted sum of the component models' conditional probabilities after the same context, with each weight applied to the model it was given for, regardless of which model has the larger order or vocabulary, their file format, and the order in which they are listed. A word that no component knows is scored as unknown by all; a word that only some components know has no probability in the others.",
 ["inputs","configurations"],
 "All pairs (and triples) of models from a bounded family with different orders, vocabularies and formats times a weight grid times all queries up to a length bound.",
 "The tests interpolate one pair of models once.",
 ["src/InterTreeGram.cc","src/PerplexityFuncs.cc","app/perplexity.cc","app/simpleinterpolate2arpa.cc"],
 [("mixture","src/InterTreeGram.cc:log_prob,test_write; src/PerplexityFuncs.cc:set_interpolation,logprob")],
 ["perplexity -i output","interpolated model log_prob"])

p("C10","Models merged to one ARPA file are normalized and exact on their n-grams",
 "The single ARPA model produced from several weighted models contains every n-gram of every component (and the prefixes these need), gives each of those n-grams exactly the weighted sum of the components' conditional probabilities, and its probabilities sum to one after every context up to the format's rounding. (Three or more models are merged one after the other: there the n-gram union and the normalization hold for all, the exact weighted sum for the n-grams of the first two.)",
 ["inputs","configurations"],
 "All pairs of models from a bounded family (different orders, overlapping and disjoint vocabularies and n-gram sets) times weights.",
 "No test covers merging to ARPA.",
 ["src/InterTreeGram.cc","src/HashGram_tmpl.hh","app/simpleinterpolate2arpa.cc"],
 [("n-gram union and renormalization","src/InterTreeGram.cc:test_write; src/HashGram_tmpl.hh:fake_interpolate,add_zeroprob_grams,renormalize_backoffs")],
 ["ARPA file written by simpleinterpolate2arpa"])

p("C11","The sparse count table behaves exactly like a map under every operation order",
 "After any sequence of insertions, increments, overwrites, deletions, clears, and plain or sorted traversals (including deletion of the entry just visited), the sparse count table holds exactly the key/value pairs a plain map would hold, reports that number of entries, and a traversal visits every remaining entry exactly once. Growth, shrinking and hash collisions never change this.",
 ["histories"],
 "All operation sequences over a small key set (forced collisions and different key widths) explored to closure of the reachable table states or to a depth bound, plus long growth/shrink histories across every internal resize boundary.",
 "No test touches the table directly; training tests hit only insert-mostly histories.",
 ["src/sparse_matrix.c","src/sparse_matrix.h","src/sparse_matrix_pinline.h","src/sikMatrix.hh"],
 [("hash chains with sorted buckets","src/sparse_matrix_pinline.h:FindEntry"),("deletion by moving the last entry","src/sparse_matrix.c:RemoveEntryIdx,RemoveEntry"),("traversal with deletion","src/sparse_matrix.c:StepThrough,DeleteCurrentST,OrderedStepThrough")],
 ["sikMatrix public operations"])

p("C12","Undoing a tentative count change restores the previous counts exactly",
 "After any sequence of tentative count and back-off updates followed by an undo, every n-gram count, denominator and type count of every order is what it was before the sequence began, and updates whose cache was reset (committed) are never undone later.",
 ["histories"],
 "All sequences up to a depth bound of cached count/denominator/type-count updates, commits and undos over a small n-gram set and all orders, for both discounting variants.",
 "The tests never inspect counts after a rejected tentative change.",
 ["src/MultiOrderCounts_tmpl.hh","src/MultiOrderCounts.hh","src/sikMatrix.hh"],
 [("change journal","src/MultiOrderCounts_tmpl.hh:IncrementCountCache,IncrementBackoffCache*,UndoCached,ResetCaches")],
 ["GetCount/GetBackoff* after UndoCached"])

p("C13","Exported counts and vocabulary rebuild the same model",
 "Training from a counts file and vocabulary that an unpruned training run exported gives the same model as that run (for a pruned run: the same n-grams with the same counts, normalized), and training from top-order counts alone gives the same model as training on the text those counts came from. Reading counts never depends on the order of lines in the file. Cutoffs and pruning applied while training from exported counts give the same model as when applied to the text directly.",
 ["inputs","histories"],
 "All small texts times option sets: train and export, retrain from the export, compare all probabilities; all line orders of small count files.",
 "The tests never use count files.",
 ["src/MultiOrderCounts_tmpl.hh","src/NgramCounts_tmpl.hh","src/Vocabulary.cc","app/counts2kn.cc"],
 [("count file format","src/MultiOrderCounts_tmpl.hh:WriteCounts,ReadCounts; src/NgramCounts_tmpl.hh:read"),("vocabulary file","src/Vocabulary.cc:read,write")],
 ["model files from counts2kn -W/-U then -c -B, and -Z -B"])

p("C14","Vocabulary restriction keeps exactly the requested words, bijectively numbered",
 "A vocabulary is a bijection between its words and indices 0..n-1 with the unknown word at 0, every other string maps to the unknown word, and writing and re-reading it preserves it (words without blanks and parentheses, other than _ and __: the list format cuts or skips those). Restricting training to the N most frequent words, to words above a frequency limit, or to a given word list yields exactly those words (ties broken by first appearance order being free), and training then equals training on the text with every other word replaced by the unknown word.",
 ["inputs","configurations"],
 "All texts over a small alphabet up to a length bound times every value of the frequency limits and every subset word list; all sequences of vocabulary operations up to a depth bound.",
 "The tests use the full vocabulary only.",
 ["src/Vocabulary.cc","src/Vocabulary.hh","src/NgramCounts_tmpl.hh","src/InterKn_tmpl.hh"],
 [("vocabulary map","src/Vocabulary.cc:add_word,read,write,copy_vocab_to"),("restriction","src/NgramCounts_tmpl.hh:count,shrink; src/InterKn_tmpl.hh:constructor_helper")],
 ["vocabulary and model files written by the trainers"])

p("C15","Memory and storage options never change the resulting model",
 "The options that only choose a storage strategy (table size hint, small-vocabulary indices, wide counters, streamed instead of cached training data, interpolated-text instead of binary output) leave every probability of the resulting model unchanged.",
 ["inputs","configurations"],
 "All small texts times all combinations of the storage options, compared with the default-option model over all contexts.",
 "The tests use one storage configuration per model.",
 ["src/InterKn_tmpl.hh","src/Storage_tmpl.hh","src/sparse_matrix.c","src/VarigramFuncs_tmpl.hh","app/counts2kn.cc","app/varigram_kn.cc"],
 [("template variants","app/counts2kn.cc; app/varigram_kn.cc"),("streamed data","src/Storage_tmpl.hh:init_fsl_file"),("table sizing","src/MultiOrderCounts_tmpl.hh:allocate_matrices_counts; src/sparse_matrix.c:CreateMatrix")],
 ["model files written by the trainers"])

p("C16","Input and output channels are transparent",
 "A text, model, vocabulary or count file gives the same results whether it is a plain file, gzip or bzip2 compressed, or a pipe command, and whether a stream is delivered in one piece or in arbitrary short pieces; output written through compression or a pipe decodes to the bytes a plain file would get. A file that does not exist or cannot be opened is always reported with a nonzero exit.",
 ["inputs","configurations","fault_sequences"],
 "All channel kinds for every input and output of each tool over a family of small files, and all splittings of small inputs into pieces.",
 "The tests use plain files only.",
 ["src/io.cc","src/io.hh","src/str.cc","src/PerplexityFuncs.cc","src/TreeGram.cc"],
 [("stream opening and pipes","src/io.cc:Stream::open,close"),("line reading","src/str.cc:read_line")],
 ["tool outputs"])

p("C17","A model that could not be written completely is never reported as success",
 "If any write of a tool's output file fails or is cut short (full disk, I/O error at any point up to and including the final flush and close), the tool ends with a nonzero exit status; it never exits successfully leaving an incomplete output file.",
 ["fault_sequences"],
 "Every write call of every output-producing tool failing with a disk-full or I/O error, and every possible short-write point, for plain and compressed outputs.",
 "No test injects write faults.",
 ["src/io.cc","src/TreeGram.cc","src/TreeGramArpaReader.cc","src/InterKn_tmpl.hh","app/counts2kn.cc","app/varigram_kn.cc","app/arpa2bin.cc","app/bin2arpa.cc","app/arpa2arpa.cc","app/simpleinterpolate2arpa.cc"],
 [("stream closing","src/io.cc:Stream::close"),("write checks","src/TreeGram.cc:write")],
 ["exit status of the tools"])

p("C18","Command lines and configuration text are parsed by one unambiguous grammar",
 "Every command line is parsed into exactly the options and positional arguments its documented syntax says: short and long forms, attached and separate values, bundled short flags, options and arguments in any order, and required-argument checks. Unknown options, missing values and wrong argument counts end in an error exit and are never silently accepted, and string helpers (splitting, cleaning, number conversion) agree with their documented results on every input.",
 ["inputs"],
 "All argument vectors up to a length bound over an alphabet of option spellings and values; all strings up to a length bound over a small character set for the string helpers.",
 "The tests pass a few fixed argument lists.",
 ["src/conf.cc","src/conf.hh","src/str.cc","src/str.hh"],
 [("option parser","src/conf.cc:Config::parse,parse_aux"),("string helpers","src/str.cc")],
 ["parsed option values and positional arguments","str:: functions"])

p("C19","Only the token sequence of a text matters, not its layout or length",
 "Training and scoring depend only on the sequence of whitespace-separated tokens (and, for scoring, on line ends where words or sentences are delimited by them): extra blanks, tabs, blank lines, a missing final newline, very long lines and tokens near internal buffer sizes change nothing, and no layout makes a tool lose, split, merge or duplicate a token or touch memory outside its buffers. (Tokens have at most 1000 bytes and no NUL bytes. Vocabulary lists have one word per line, in the documented dictionary format: a line is cut at its first blank or parenthesis, and the entries _ and __ are skipped.)",
 ["inputs"],
 "All whitespace layouts of small token sequences, and all offsets of token and line boundaries around each internal buffer size.",
 "The tests use one well formatted text with short lines.",
 ["src/MultiOrderCounts_tmpl.hh","src/Storage_tmpl.hh","src/NgramCounts_tmpl.hh","src/PerplexityFuncs.cc","src/str.cc","src/ArpaReader.cc","src/def.hh"],
 [("token readers","src/MultiOrderCounts_tmpl.hh:InitializeCountsFromText; src/Storage_tmpl.hh:read,init_fsl_file; src/PerplexityFuncs.cc:logprob_file"),("line reader","src/str.cc:read_line")],
 ["tool outputs"])

p("C20","Held-out discount optimization stays in bounds and never hurts the held-out set",
 "Optimizing the discounts on a held-out text always terminates, leaves every discount inside its allowed interval, and never gives the held-out text a lower probability than the starting discounts did. The optimizer finds, to its precision, the minimum of a convex function of up to several variables from any start point, and never evaluates outside the bounds it was given.",
 ["inputs","configurations"],
 "All pairs of small training and held-out texts for orders up to 3 and one or three discounts; all quadratic and piecewise objective functions from a bounded grid times start points and bounds for the optimizer alone.",
 "The tests optimize on one corpus and look only at the final perplexity.",
 ["src/QFit.cc","src/QFit.hh","src/InterKn_tmpl.hh"],
 [("line search","src/QFit.cc"),("objective","src/InterKn_tmpl.hh:evaluate,find_coeffs,flatv2disc,logprob_datastorage")],
 ["perplexity of the held-out text under the trained model; optimizer result"])

p("C21","Training always terminates, and a size target is met when it can be met",
 "Every training run on a valid text ends, whatever the options, including size targets smaller than the vocabulary. When a target number of n-grams is given and can be met by pruning n-grams of order two and up, the model has no more than 1.03 times that number of n-grams before required prefixes are added.",
 ["inputs","configurations"],
 "All texts over a small alphabet up to a length bound times every size target from 1 to beyond the full model's size times smoothing variants.",
 "The tests use one target on one corpus.",
 ["src/VarigramFuncs_tmpl.hh","app/varigram_kn.cc"],
 [("pruning loop","src/VarigramFuncs_tmpl.hh:prune")],
 ["exit of varigram_kn -V and n-gram totals of its output"])

p("C22","Model traversal and look-ahead lists agree with single queries",
 "Walking a loaded model visits every stored n-gram exactly once with its stored probability and back-off weight, in prefix order and within any requested order limit; and the list of next-word probabilities for a context equals the individually queried probability of each word. Looking up an n-gram that is not stored never reports one.",
 ["inputs","histories"],
 "All small models (every subset of n-grams over a bounded vocabulary and order, including nodes with enough children for both search strategies) times all contexts and all iterator movements up to a depth bound.",
 "The tests never iterate a model or ask for look-ahead lists.",
 ["src/TreeGram.cc","src/TreeGram.hh"],
 [("iterator","src/TreeGram.cc:Iterator::next,next_order,up,down,move_in_context"),("look-ahead","src/TreeGram.cc:fetch_bigram_list,fetch_trigram_list,fetch_gram")],
 ["iterator visits, fetched lists"])

p("C23","No valid input makes a tool corrupt memory or read uninitialized data",
 "On every well-formed text, model, counts or vocabulary file and every documented option combination, the tools and the library stay inside the memory they own, read no freed or uninitialized storage, and end normally with a status, never by a signal. This includes degenerate inputs: empty and one-token texts, texts shorter than the model order, single-word vocabularies, unigram-only models and orders with no n-grams.",
 ["inputs","configurations"],
 "The bounded input and option spaces of the other properties plus degenerate inputs, executed on a build with memory and undefined-behaviour checking.",
 "The tests run a release build on one healthy corpus, where out-of-bounds reads usually go unnoticed.",
 ["src/InterKn_tmpl.hh","src/NgramCounts_tmpl.hh","src/Storage_tmpl.hh","src/TreeGram.cc","src/HashGram_tmpl.hh","src/PerplexityFuncs.cc","src/sparse_matrix.c"],
 [("bounds by construction","whole library")],
 ["sanitizer reports and exit statuses"])

p("C24","Several models in one process never influence each other",
 "When several trainers, models and scorers live in one process, as they do under the Python wrapper, using one (training it, scoring with it, traversing it, destroying it) at any point between operations of another does not change any result of the other; repeating an operation sequence in the same process gives the same results as in a fresh process.",
 ["histories"],
 "All interleavings of short operation scripts on two objects (scorers over different models, count tables, model iterators, trainers), compared with each script run alone in a fresh process.",
 "The tests use objects one at a time; process-wide static state is only exercised by interleaved use.",
 ["src/sparse_matrix.c","src/sikMatrix.hh","src/TreeGram.cc","src/HashGram_tmpl.hh","src/PerplexityFuncs.cc","src/MultiOrderCounts_tmpl.hh"],
 [("object-local state","src/PerplexityFuncs.hh; src/TreeGram.hh; src/HashGram.hh")],
 ["results of the public API"])

p("C25","A scorer's results depend only on the words since its history was cleared",
 "After clearing the history, a scorer returns for any following words exactly what a fresh scorer returns, and at any time the score of a word depends only on the words since the last clear (or sentence start, where configured). Feeding the same words token by token, through the sentence call, or from a file gives the same log-probabilities.",
 ["histories"],
 "All sequences of scoring, clearing and statistics calls up to a depth bound over a small token alphabet, for every scorer configuration in the bound, compared with a fresh scorer replaying the suffix.",
 "The tests score one sentence after one clear.",
 ["src/PerplexityFuncs.cc","src/PerplexityFuncs.hh"],
 [("history window","src/PerplexityFuncs.cc:logprob,sentence_logprob; src/PerplexityFuncs.hh:clear_history")],
 ["token_logprob, word_logprob, sentence_logprob"])

p("C26","The diagnostic tools report what the model contains",
 "check_model lists, after a context, every vocabulary word once with the probability and n-gram order the model gives it, their sum, and the two largest probabilities with words that have them; with -d it reports exactly the positions of a text where that sum leaves the interval 0.99 to 1.001. arpasize reports, per order and in total, the n-grams of the model, leaving out an n-gram of order two or more exactly when its back-off weight is one or more and its log-probability is within half a percent of the one the model gives after dropping its first word; with -S it reports the n-gram numbers of the ARPA header and their total. This holds for ARPA files in the tree and the hash representation and for binary files.",
 ["inputs","configurations"],
 "All models of a bounded space, intact and damaged at one n-gram, in every representation, times all contexts up to the model order; all reports are compared with an independent evaluator.",
 "The tests only run check_model over one model and do not look at what it lists.",
 ["app/check_model.cc","app/arpasize.cc","src/NGram.cc","src/TreeGram.cc","src/HashGram_tmpl.hh"],
 [("word listing and sums","app/check_model.cc:main"),("model sizes","app/arpasize.cc:main")],
 ["standard error of check_model","output file of arpasize"])

p("C27","The trainer object and the tool give the same files, whatever the call order",
 "Training through the library's trainer object (the one the Python wrapper exposes) gives the same models, counts and vocabulary as the command line tool with the corresponding options. The settings and the initialization may come in any order. Writing a trained model, in any of its formats, to a stream or by name, any number of times and in any order, does not change it: every file is the one a fresh training run would write (counts listed after a model was written may also name n-grams with zero count), and forcing the discounts changes exactly what is written afterwards.",
 ["histories","configurations","inputs"],
 "All sequences of writing and discount calls up to a depth bound on trained models over all small texts and configurations, and all orders of the settings; every file compared with the one of the tool.",
 "The tests train once and write one file.",
 ["src/VarigramFuncs.hh","src/VarigramFuncs_tmpl.hh","src/InterKn_tmpl.hh","app/varigram_kn.cc"],
 [("trainer object","src/VarigramFuncs.hh:Varigram_t; src/VarigramFuncs_tmpl.hh:initialize,grow,write"),("writing a model from the counts","src/InterKn_tmpl.hh:counts2lm,counts2asciilm,remove_zeroprob_grams,add_zeroprob_grams_fbase")],
 ["write, write_file, write_narpa, write_debug_counts, write_vocab"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
