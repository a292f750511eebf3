"""The properties: one source for properties.jsonl and MANIFEST.json (gen.py writes both)."""
R = []


def P(id, title, statement, over, quant, why, files, mech, observe=(), note=""):
    R.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files.split(),
                  mech=mech, observe=list(observe), note=note))


NOTEST = "The four shipped tests run fixed inputs (string helpers, a configuration, a vocabulary, one tree model); "
P("C01", "Sparse count tables behave as maps with a default value",
  "A sparse table returns for every key the value last set or accumulated for it and the default value for every other key, under any sequence of set, "
  "increment and increment-with-deletion operations, hash collisions and growth included. "
  "Entries holding the default value need not be stored, and the number of stored entries is that of the keys stored. Reserving or shrinking room never changes the contents.",
  "inputs histories", "every sequence of operations and every key up to the bounds",
  "No test touches the sparse tables; collisions, growth and deletion depend on the history of operations.",
  "src/sparse_matrix.c src/sparse_matrix_pinline.h src/sikMatrix.hh",
  [("open hashing with chained entries packed in one array", "src/sparse_matrix_pinline.h"), ("rehash on growth", "src/sparse_matrix.c")])
P("C02", "Walks over count tables visit every entry once; bulk deletion is exact",
  "A walk over a sparse table, plain or ordered, whole or restricted to a key's row, yields every stored entry exactly once with its value, ordered walks in key order, "
  "and deletions made during a walk remove precisely the entry visited without losing or repeating others. "
  "Removing all default-valued entries leaves every remaining entry as it was.",
  "inputs histories", "every table content up to the bound and every subset deleted during a walk",
  "No test iterates a sparse table; entries move when others are removed, so the outcome depends on which are removed.",
  "src/sparse_matrix.c src/sikMatrix.hh",
  [("stepping with deletion in place", "src/sikMatrix.hh"), ("moving the last entry into the hole", "src/sparse_matrix.c")])
P("C03", "Text splitting, cleaning, line reading and number parsing are exact",
  "Splitting yields exactly the fields between separators (grouped or not, with a field limit), cleaning removes exactly the listed leading and trailing characters, "
  "quoted splitting honours quotes and backslashes, and reading lines returns the file's bytes line by line with the line end kept or removed as asked. "
  "Number parsing accepts exactly complete numbers and reports everything else as an error.",
  "inputs", "every byte string up to the length bound over the relevant characters",
  NOTEST + "a handful of strings does not settle every placement of separators, quotes, backslashes and line ends.",
  "src/str.cc src/str.hh", [("field and quote scanners", "src/str.cc")])
P("C04", "The vocabulary is a bijection with the unknown word at index zero",
  "Every word added gets one index, adding it again returns the same index, looking a word up and back gives the word, and any word not added maps to the unknown word. "
  "Reading a vocabulary file adds the first token of each non-blank line in order, whatever the white space around it (lone underscores excepted); writing and reading give the same vocabulary.",
  "inputs histories", "every sequence of words and every file content up to the bound",
  NOTEST + "one fixed list of words is used.",
  "src/Vocabulary.cc src/Vocabulary.hh", [("word to index map and index to word vector", "src/Vocabulary.cc")])
P("C05", "Command lines are parsed completely or refused",
  "Every command line is either parsed so that each declared option has exactly the values given for it (long, short, joined and separate forms, defaults otherwise) and every other argument "
  "is kept in order, or refused with an error: unknown options, missing values, missing mandatory options and malformed numbers never pass silently. "
  "Configuration files set the same options.",
  "inputs configurations", "every argument vector and configuration line up to the bound",
  NOTEST + "one command line is used.",
  "src/conf.cc src/conf.hh", [("argument scanner", "src/conf.cc")])
P("C06", "Streams open what their name says; byte order conversion is an involution",
  "A file name selects standard input or output, a plain file, a compressed file or a pipe exactly as documented, the handle is closed by the matching call exactly once, "
  "opening over an open handle closes the old one, and a stream that cannot be opened is an error. Byte order conversion reverses the bytes of each value.",
  "inputs histories", "every file name up to the bound and every value",
  "No test opens a compressed or piped stream.",
  "src/io.cc src/io.hh src/Endian.hh src/Endian.cc", [("stream selection by name", "src/io.cc")])
P("C07", "A back-off model assigns each word the probability its grams define",
  "For every context and word the log-probability returned is that of the longest stored gram that ends the context and the word, plus the back-off weights of the longer contexts stored "
  "that had to be left, and the reported length of the match is the gram's. Words outside the vocabulary are scored as the unknown word, and contexts longer than the model's order count only in their last words.",
  "inputs", "every model up to the bounds (any set of grams, any values) and every context",
  NOTEST + "one small model and a few sentences are scored.",
  "src/TreeGram.cc src/TreeGram.hh src/NGram.hh", [("binary search among children", "src/TreeGram.cc"), ("back-off recursion", "src/TreeGram.cc")])
P("C08", "Interpolated models score by interpolation, and conversion preserves scores",
  "An interpolated model's probability of a word after a context is the gram's own share plus the weighted probability after the shorter context. "
  "The order it reports is that of the longest stored gram used. Converting an interpolated model to back-off form leaves the probability of every word after every context unchanged.",
  "inputs", "every model up to the bounds and every context",
  NOTEST + "no interpolated model is scored or converted.",
  "src/TreeGram.cc", [("interpolated scoring", "src/TreeGram.cc"), ("conversion to back-off form", "src/TreeGram.cc")])
P("C09", "Model iteration visits every gram once in order",
  "Iterating over a model, over one order or over the children of a gram visits each of its grams exactly once in sorted order, with its words, score and back-off weight, and moves between parents and children consistently.",
  "inputs histories", "every model up to the bounds and every walk",
  NOTEST + "one model is walked once.",
  "src/TreeGram.cc src/TreeGram.hh", [("iterator stack", "src/TreeGram.cc")])
P("C10", "Binary models round-trip exactly and truncated files are refused",
  "Writing a model in binary form and reading it back gives the same grams, scores, back-off weights, vocabulary, order and type. "
  "A file cut short at any byte, or whose header gives counts that do not add up, is reported as an error, never read as a smaller model or past its end.",
  "inputs crash_points", "every model up to the bounds and every cut",
  NOTEST + "no model is cut and no value checked bit for bit.",
  "src/TreeGram.cc", [("header and node block", "src/TreeGram.cc")])
P("C11", "ARPA models round-trip, whatever the order of their lines",
  "A model written as ARPA text and read back has the same grams, scores and weights; reading gives the same model whatever the order of lines within an order, in both model classes, "
  "and both give every word after every context the same probability.",
  "inputs", "every gram set up to the bounds and every order of lines",
  NOTEST + "one sorted file is read.",
  "src/TreeGramArpaReader.cc src/ArpaReader.cc src/HashGram_tmpl.hh src/GramSorter.cc", [("grams sorted before insertion", "src/TreeGramArpaReader.cc")])
P("C12", "Malformed ARPA files are refused without memory errors",
  "A damaged ARPA file (missing header, wrong counts, missing or extra fields, grams longer than declared, missing unigrams or prefixes) is reported as an error; "
  "reading never touches memory out of bounds and never yields a model that disagrees with the text.",
  "inputs fault_sequences", "every single defect among those listed, at every place",
  "Tests only read well-formed files.",
  "src/ArpaReader.cc src/TreeGramArpaReader.cc src/TreeGram.cc", [("error checks of the reader", "src/ArpaReader.cc")])
P("C13", "Gram sorting is a sorted permutation with exact lookup",
  "Sorting the grams collected for an order gives exactly the same grams and values in lexicographic order. "
  "Looking up a gram afterwards finds it exactly when present.",
  "inputs", "every list of grams up to the bounds",
  "No test sorts more than the one fixed file.",
  "src/GramSorter.cc src/GramSorter.hh", [("indirect sort over packed grams", "src/GramSorter.cc")])
P("C14", "Mixtures and look-ahead lists equal word-by-word scores",
  "The look-ahead list of a context holds for each word the probability the model gives that word after the context. "
  "A mixture of two models assigns each word the weighted sum of the models' probabilities over the joined vocabulary, for any weight. Weights that do not sum to one, or of another number than the models, are refused.",
  "inputs configurations", "every pair of models up to the bounds, every weight and context",
  "No test uses mixtures or look-ahead lists.",
  "src/InterTreeGram.cc src/TreeGram.cc", [("list filling over back-off levels", "src/TreeGram.cc"), ("mixture", "src/InterTreeGram.cc")])
P("C20", "Trained statistics follow from the counts by definition",
  "From any table of top-order counts the model's lower-order counts are, for Kneser-Ney smoothing, the numbers of different words seen to the left, and for absolute discounting the total occurrences; "
  "for every context the stored total equals the sum of its counts and the stored class sizes equal the numbers of its grams with count one, two and more.",
  "inputs", "every count table over the candidate grams up to the bounds",
  "No test trains a model.",
  "src/InterKn_tmpl.hh src/MultiOrderCounts_tmpl.hh", [("lower-order estimation", "src/InterKn_tmpl.hh"), ("context statistics", "src/MultiOrderCounts_tmpl.hh")])
P("C18", "Training text yields exactly its n-gram counts",
  "Training on a text counts every window of the model's order exactly once, the shorter windows only at the start of the text or of a sentence when history is cleared there, with words outside a given vocabulary counted as the unknown word. "
  "The vocabulary is that of the text, the given one, or the requested number of most frequent words, whether the text is read from a file or kept in memory and whatever the width of word indices.",
  "inputs configurations", "every text up to the bound in each training configuration",
  "The training test only checks that a model comes out for one text.",
  "src/MultiOrderCounts_tmpl.hh src/InterKn_tmpl.hh src/NgramCounts_tmpl.hh src/Storage_tmpl.hh", [("sliding window", "src/MultiOrderCounts_tmpl.hh"), ("training constructor", "src/InterKn_tmpl.hh")])
P("C21", "Trained models are normalised for every discount in range",
  "For any counts and any discounts within their ranges, the trained model's probabilities of all words after any context are between zero and one and sum to one.",
  "inputs configurations", "every count table over the candidates, every discount value, every context",
  "No test sums the probabilities of a trained model.",
  "src/InterKn_tmpl.hh", [("interpolated estimate and its weights", "src/InterKn_tmpl.hh")])
P("C22", "The written model scores as the trained counts do",
  "The model written out after training, as a tree model or as interpolated ARPA text, gives every word after every context the probability the trainer computes from its counts, "
  "also after pruning, and writing it does not change the trained model. The numbers of grams given are those of the grams written, and no gram without probability is kept that no longer gram or back-off weight needs.",
  "inputs", "every count table over the candidates, every context",
  "No test compares a written model with its counts.",
  "src/InterKn_tmpl.hh", [("conversion of counts to nodes", "src/InterKn_tmpl.hh")])
P("C24", "Pruning removes exactly the grams asked for and keeps the model consistent",
  "Count cutoffs remove exactly the grams whose count does not exceed the cutoff of their order, discarding unknown words removes exactly the higher-order grams that contain them, a large enough threshold removes all and a low enough one none. "
  "In Kneser-Ney models the occurrences of removed grams return to the lower order unless asked otherwise, totals and class sizes of every context stay those of the remaining counts and removed mass, and the model stays normalised.",
  "inputs configurations", "every count table over the candidates and every combination of cutoffs",
  "No test prunes by cutoffs, and none checks the counts left.",
  "src/InterKn_tmpl.hh src/MultiOrderCounts_tmpl.hh", [("gram removal with correction", "src/InterKn_tmpl.hh"), ("cached increments", "src/MultiOrderCounts_tmpl.hh")])
P("C27", "Plain n-gram counts are exact and survive vocabulary reduction and files",
  "Counting a text gives each sequence of the given length its number of occurrences. Limiting the vocabulary keeps the most frequent words, moves the counts of dropped words to the unknown word and loses no occurrence. "
  "Counts written and read back are the same, and broken lines of a count file are skipped without harm.",
  "inputs configurations", "every text and count file line up to the bounds",
  "No test counts or reads counts.",
  "src/NgramCounts_tmpl.hh", [("counting window, frequency sort, remapping", "src/NgramCounts_tmpl.hh")])

P("C15", "The hash model scores by definition and round-trips as text",
  "The hash-based model gives every word after every context the back-off or interpolated probability its grams define, with the length of the match, whichever argument type and index width is used; contexts longer than the order count only in their last words. "
  "Written as ARPA text and read back, by either model class, it scores the same.",
  "inputs", "every gram set and values up to the bounds, every context",
  "No test scores with or writes the hash model.",
  "src/HashGram_tmpl.hh src/HashGram.hh src/ArpaReader.cc", [("per-order tables with default for absent grams", "src/HashGram_tmpl.hh")])
P("C16", "Completing or pruning a hash model preserves its distribution",
  "Adding the grams a prefix tree needs makes the written model loadable as a tree and leaves the probability of every word after every context unchanged, in back-off and interpolated models, by either model class. "
  "Entropy pruning of a bigram model removes exactly the grams whose removal costs at most the threshold, keeps the probabilities of the others, and leaves every context summing to one.",
  "inputs configurations", "every gram set up to the bounds, prefix-closed or not, every threshold",
  "No test completes or prunes a model.",
  "src/HashGram_tmpl.hh app/add_zeroprob_grams.cc", [("adding prefixes", "src/HashGram_tmpl.hh"), ("entropy pruning", "src/HashGram_tmpl.hh")])
P("C17", "The single model standing for a mixture is normalised and exact on stored grams",
  "Interpolating a back-off model with another into one back-off model gives every gram stored in either the weighted sum of the two models' probabilities, keeps all grams of both, and makes every context sum to one, "
  "for any weight and any pair of orders. The second model is not changed, and the result survives being written and read.",
  "inputs configurations", "every pair of models up to the bounds, every weight",
  "The interpolation test is not among the reliable ones and compares one pair of models.",
  "src/HashGram_tmpl.hh app/simpleinterpolate2arpa.cc", [("mixing order by order from the top", "src/HashGram_tmpl.hh"), ("renormalising weights", "src/HashGram_tmpl.hh")])
P("C19", "Trial changes to the counts are visible at once and undone exactly",
  "Counts and context statistics changed through the caches read back with the change applied, and undoing restores every count, context statistic, number of entries and walk to what it was when the caches were reset, "
  "whatever mixture of existing and new entries was changed and for a newly added order. Without undoing the changes stay.",
  "histories", "every earlier content and every sequence of cached changes up to the bounds",
  "No test grows a model, which is what uses the caches.",
  "src/MultiOrderCounts_tmpl.hh src/MultiOrderCounts.hh", [("change log with entry indices", "src/MultiOrderCounts_tmpl.hh"), ("removal of new entries from the end", "src/MultiOrderCounts_tmpl.hh")])

P("C23", "Growing a model adds only what pays and keeps its counts right",
  "Growing takes in only grams of the text up to the largest order, everything when storing costs nothing and no longer gram when nothing pays. "
  "The counts of the grown model are those its definition gives for the grams taken in (the text's occurrences, less those the stored longer grams account for), its totals and class sizes are those of its counts, "
  "and the model written is normalised, also when it is pruned while growing and when history is cleared at sentence starts.",
  "inputs configurations", "every text up to the bound, in each growing configuration, with extreme and moderate storage costs",
  "The growing test only checks that a model comes out for one text.",
  "src/VarigramFuncs_tmpl.hh src/VarigramFuncs.hh src/InterKn_tmpl.hh", [("growing history by history", "src/VarigramFuncs_tmpl.hh"), ("trial grams and their description length", "src/VarigramFuncs_tmpl.hh")])
P("C25", "Counts files carry the whole model and broken ones do no harm",
  "The counts of a trained model written to a file and read back give the same counts, context statistics and model, whatever the count width, smoothing and number of discounts, also after pruning. "
  "A model made from a file of highest-order counts has the vocabulary and statistics of the counts. A broken counts file is refused or what it says is taken, and never makes the reader use memory it does not own.",
  "inputs configurations", "every count table over the candidates, every short damaged counts file",
  "No test writes or reads the counts of a model.",
  "src/MultiOrderCounts_tmpl.hh src/InterKn_tmpl.hh", [("counts file writer and reader", "src/MultiOrderCounts_tmpl.hh"), ("reading modes", "src/InterKn_tmpl.hh")])
P("C26", "Perplexity scores each token once with the right history",
  "Scoring a text sums the log-probability of every scored token given the words before it, resets the history at sentence starts, leaves out context cues and the initial history, and drops or scores unknown words as asked. "
  "Words made of several morphs count once, with the sum of their parts. Words, unknown words, cues and sentence ends are counted exactly and the per-word output agrees with the totals. "
  "With two models each token gets the weighted sum of their probabilities, and tokens longer than the reading buffers do no harm.",
  "inputs configurations", "every text up to the bound, every model values, in each scoring configuration",
  "The evaluation test scores one text with one model and is not reliable.",
  "src/PerplexityFuncs.cc src/PerplexityFuncs.hh app/perplexity.cc", [("token classes and history", "src/PerplexityFuncs.cc"), ("score of one token", "src/PerplexityFuncs.cc")])
P("C28", "Continuation lists hold exactly the text's continuations",
  "The lists made for growing and pruning give, for every history, exactly the words following it in the text with their number of occurrences, for text in memory and in files, any order and index width, and with history cleared at sentence starts. "
  "Text kept in memory gives back every word of the text at its place, whatever the length of its words.",
  "inputs configurations", "every text up to the bound and every history",
  "No test looks at the lists.",
  "src/Storage_tmpl.hh src/Storage.hh src/InterKn_tmpl.hh", [("lists from text", "src/Storage_tmpl.hh"), ("text in memory", "src/Storage_tmpl.hh")])
P("C29", "Discounts stay in range and optimising them does not make them worse",
  "Leave-one-out estimates of the discounts follow their formula and lie in range. The search for discounts evaluates only points within the limits, ends, and ends at the best point of a convex error. "
  "The optimisation text's log-probability is the mean over its known words of the model's own probabilities, and the optimised discounts are in range and score that text no worse than the estimates.",
  "inputs configurations", "every count table over the candidates, every optimisation text up to the bound, families of error functions",
  "No test looks at discounts.",
  "src/InterKn_tmpl.hh src/QFit.cc", [("discount estimates and optimisation", "src/InterKn_tmpl.hh"), ("quadratic line search", "src/QFit.cc")])
P("C30", "The conversion tools keep the model and report its size",
  "A model file that goes through the converters (ARPA to binary, binary to ARPA, ARPA to ARPA, back-off to interpolated and back) holds the same words and grams and scores every word after every context as the original, "
  "also when the tools are chained through pipes. The size tool reports the number of grams of the file for text and binary models.",
  "inputs configurations", "every model values up to the bounds, every chain of two tools",
  "No test runs a conversion tool.",
  "app/arpa2bin.cc app/bin2arpa.cc app/arpa2arpa.cc app/arpasize.cc", [("command-line tools around the readers and writers", "app/arpa2arpa.cc"), ("gram counting", "app/arpasize.cc")])
P("C31", "The training tools write the model their options ask for",
  "counts2kn and varigram_kn write a model that has exactly the grams of the text left by the order, cutoffs, vocabulary and pruning asked for, with the discounted probabilities these define and summing to one. "
  "The output form (text or binary, back-off or interpolated, index and count width, text kept in memory, counts written and read back) does not change any probability, and training always ends, whatever target size is asked for.",
  "inputs configurations", "every text up to the bound, in each combination of options listed",
  "The training test compares a few models of one text.",
  "app/counts2kn.cc app/varigram_kn.cc src/InterKn_tmpl.hh src/VarigramFuncs_tmpl.hh", [("command lines", "app/counts2kn.cc"), ("model from counts", "src/InterKn_tmpl.hh")])

NA = []
