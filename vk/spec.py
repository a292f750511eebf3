"""What each property's check runs."""
BUDGET = {"quick": 420, "thorough": 800}
COMMON = [
    "Heap, stack and global objects are separate; allocation never fails; addresses are not compared across objects.",
    "Symbolic floating-point inputs are exact reals (rounding is outside the claim, assertions carry a tolerance); "
    "concrete floating-point values are computed bit-exactly.",
    "libc and libstdc++ parts not compiled from headers are modelled by rt/rtc.cc and rt/rtcxx.cc (files live in memory).",
    "Counterexamples are reported only when a native build of /repo reproduces them.",
]


def H(src, defs=(), t=120, bounds="", covers=(), tiers=("quick", "thorough"), apps=(), **kw):
    return dict(apps=list(apps), src=src, defs=list(defs), t=t, bounds=bounds, covers=list(covers), tiers=tiers, **kw)


Q, T = ("quick",), ("thorough",)
PROPS = {}

PROPS["C01"] = dict(harnesses=[
    H("smat_map.cc", ["OPS=3"], bounds="3 set/increment operations from empty, 6 keys (4 share a hash bucket), values -2..2, default 0",
      covers=["history done"]),
    H("smat_map.cc", ["OPS=2", "PRE=5", "DEF=3"], bounds="2 operations after 5 insertions, default 3", covers=["four or more keys stored"]),
    H("smat_map.cc", ["OPS=3", "HS=0"], bounds="3 operations on a matrix created for zero entries", covers=["history done"]),
    H("smat_map.cc", ["OPS=4"], t=300, tiers=T, bounds="4 operations", covers=["history done"]),
    H("smat_map.cc", ["OPS=3", "PRE=5"], t=200, tiers=T, bounds="3 operations after 5 insertions", covers=["history done"]),
    H("smat_grow.cc", bounds="1..26 entries inserted (initial room 1..2), reduced to 0..8, 0..3 added", covers=["grown"]),
    *[H("smat_typed.cc", ["TYPE=%d" % k, "OPS=3"], bounds="3 set/increment/delete/clear operations through the %s, 5 keys" % w, covers=["typed history", "two stored"])
      for k, w in ((0, "int entry points"), (3, "pointer overloads with short keys"))],
    *[H("smat_typed.cc", ["TYPE=%d" % k, "OPS=2"], bounds="2 operations through the %s entry points" % w, covers=["typed history"])
      for k, w in ((1, "float"), (2, "double"))],
    *[H("smat_typed.cc", ["TYPE=%d" % k, "OPS=3"], t=300, tiers=T, bounds="3 operations through the %s entry points" % w, covers=["typed history"])
      for k, w in ((1, "float"), (2, "double"))],
])
PROPS["C02"] = dict(harnesses=[
    H("smat_step.cc", ["N=3"], bounds="3 increments over 6 keys, then any walk / any subset deleted",
      covers=["step", "ordered", "delete", "remove defaults"]),
    *[H("smat_typed.cc", ["TYPE=%d" % k, "OPS=2"], bounds="both walks after 2 operations through the %s entry points" % w, covers=["typed history"])
      for k, w in ((0, "int"), (1, "float"), (2, "double"), (3, "pointer"))],
    H("smat_step.cc", ["N=5"], t=300, tiers=T, bounds="5 increments over 6 keys", covers=["delete", "remove defaults"]),
])
PROPS["C03"] = dict(harnesses=[
    H("str_fields.cc", bounds="strings of length 0..L over the special characters; numbers of up to 4 characters", covers=["split", "clean", "long", "float", "range"]),
    H("str_fields.cc", ["LINES"], bounds="files of up to L bytes, line ends kept or dropped", covers=["lines"]),
    H("str_fields.cc", ["QUOTES"], bounds="strings with quotes and backslashes", covers=["quotes"]),
    H("str_fields.cc", ["L=6"], t=250, tiers=T, bounds="strings up to 6 bytes", covers=["split", "clean", "long", "float", "range"]),
    H("str_fields.cc", ["LINES", "L=7"], t=250, tiers=T, bounds="files up to 7 bytes", covers=["lines"]),
    H("str_fields.cc", ["QUOTES", "L=6"], t=250, tiers=T, bounds="strings up to 6 bytes", covers=["quotes"]),
])
PROPS["C04"] = dict(harnesses=[
    H("voc.cc", bounds="3 words of up to 2 letters added, any lookup", covers=["map"]),
    H("voc.cc", ["READ", "L1=4"], bounds="vocabulary files with a symbolic line of 4 bytes", covers=["read"]),
    H("voc.cc", ["READ", "L1=5"], t=300, tiers=T, bounds="5 symbolic bytes", covers=["read"]),
    H("voc.cc", ["N=4"], t=300, tiers=T, bounds="4 words", covers=["map"]),
])
PROPS["C05"] = dict(harnesses=[
    H("conf.cc", ["NARG=3"], bounds="command lines of 3 arguments of up to 3 characters over the option letters", covers=["accepted", "rejected"]),
    H("conf.cc", ["NARG=4"], t=300, tiers=T, bounds="4 arguments", covers=["accepted", "rejected"]),
    H("conf_num.cc", bounds="numeric option values up to 4 characters", covers=["number", "rejected"]),
    H("conf_file.cc", bounds="a configuration file with symbolic lines", covers=["file", "mandatory option missing"]),
])
PROPS["C06"] = dict(harnesses=[
    H("endian.cc", bounds="every 2/4-byte value", covers=["converted"]),
    H("io.cc", bounds="symbolic names over the characters that select plain, compressed and piped streams", covers=["opened", "refused"]),
])
PROPS["C07"] = dict(harnesses=[
    H("tree_prob.cc", bounds="order 3, 3 words, any gram set within the sizes, values arbitrary reals, any context of up to 4 words",
      covers=["backoff", "full order"]),
    H("tree_wide.cc", t=150, bounds="a node with up to 12 children, any word looked up", covers=["searched"]),
    H("tree_prob.cc", ["ORDER=4", "N4=3", "N2=6"], t=200, tiers=T, bounds="order 4", covers=["backoff", "full order"]),
])
PROPS["C08"] = dict(harnesses=[
    H("tree_prob.cc", ["INTERP"], bounds="order 3 interpolated model, positive values", covers=["interpolated", "full order"]),
    H("tree_prob.cc", ["INTERP", "ORDER=4", "N4=2", "N3=2", "N2=3"], bounds="order 4 interpolated model (contexts with unstored suffixes)", covers=["interpolated", "full order"]),
    H("tree_prob.cc", ["INTERP", "CONVERT"], bounds="order 3 interpolated model converted to back-off form", covers=["interpolated", "full order"]),
])
PROPS["C09"] = dict(harnesses=[
    H("tree_iter.cc", ["ORDER=%d" % o], t=150, bounds="order %d, 3 words" % o, covers=["walked", "children"] if o > 1 else ["walked"]) for o in (1, 2, 3)
])
PROPS["C10"] = dict(harnesses=[
    H("tree_bin.cc", bounds="order 3 back-off model, symbolic values", covers=["backoff", "full order"]),
    H("tree_bin.cc", ["INTERP"], bounds="order 3 interpolated model", covers=["interpolated", "full order"]),
    H("tree_bin.cc", ["BIG"], bounds="order 3, fixed values, the other byte order", covers=["backoff", "interpolated", "full order"]),
    H("tree_bin.cc", ["WRONG"], bounds="one number of the header (node count, order, gram counts) replaced by any of 0..60", covers=["wrong"]),
    H("tree_bin.cc", ["CUT", "N2=2", "N3=1"], t=200, bounds="the file cut after any byte", covers=["cut"]),
])
PROPS["C11"] = dict(harnesses=[
    H("tree_arpa.cc", bounds="order 3, values fixed distinct", covers=["read back", "full order"]),
    H("tree_arpa.cc", ["INTERP"], bounds="order 3 interpolated", covers=["read back", "full order"]),
    H("arpa_text.cc", ["N2=2", "N3=2"], bounds="ARPA text, lines of an order in any order", covers=["tree", "hash", "full order"]),
    H("arpa_text.cc", ["SYMV", "N2=2", "N3=1"], bounds="symbolic values", covers=["tree", "hash", "full order"]),
    H("arpa_text.cc", ["EMPTY", "N2=2", "N3=1"], bounds="orders without grams at the end", covers=["tree", "hash", "full order"]),
    H("arpa_text.cc", ["INTERP", "N2=2", "N3=2"], bounds="interpolated ARPA", covers=["tree", "full order"]),
    H("arpa_text.cc", t=300, tiers=T, bounds="up to 4 bigrams and 4 trigrams", covers=["tree", "hash", "full order"]),
])
PROPS["C12"] = dict(harnesses=[
    H("arpa_bad.cc", bounds="one symbolic defect in an ARPA file", covers=["refused", "accepted"]),
    H("arpa_damage.cc", ["KIND=0"], bounds="an order 3 text with any line deleted or repeated or any two exchanged", covers=["refused", "accepted"]),
    H("arpa_damage.cc", ["KIND=1", "L=3"], bounds="any line of up to 3 characters inserted anywhere", covers=["refused", "accepted"]),
    H("arpa_damage.cc", ["KIND=2"], bounds="any number in the header or in a section's name", covers=["refused", "accepted"]),
    H("arpa_damage.cc", ["KIND=3"], bounds="any trigram over known and unknown words", covers=["refused", "accepted"]),
    H("arpa_damage.cc", ["KIND=4", "L=4"], bounds="a gram line with any 4 characters after the score", covers=["refused"]),
    H("arpa_damage.cc", ["KIND=4", "L=6"], t=300, tiers=T, bounds="6 characters after the score", covers=["refused"]),
])
PROPS["C13"] = dict(harnesses=[
    H("sorter.cc", ["N=4"], t=150, bounds="4 grams of 3 words, any words", covers=["sorted", "reused"]),
    H("sorter.cc", ["N=5"], t=300, tiers=T, bounds="5 grams", covers=["sorted", "reused"]),
])
PROPS["C14"] = dict(harnesses=[
    H("tree_fetch.cc", bounds="order 3, 3 words, any context", covers=["lists", "full order"]),
    H("inter.cc", ["N2=3"], t=150, bounds="two models over 3 words, any mixture weight", covers=["other words", "same words"]),
    H("inter.cc", ["N2=2", "INTERP"], bounds="interpolated models", covers=["other words", "same words"]),
    H("inter_args.cc", bounds="1..2 models, 1..3 weights of any value in 0..2", covers=["refused", "mixed"]),
])
PROPS["C20"] = dict(harnesses=[
    H("kn_stats.cc", bounds="order 3, 3 words, 5 candidate trigrams with counts 0..3, text starts; Kneser-Ney", covers=["statistics"]),
    H("kn_stats.cc", ["D3=1", "MAXC=5"], bounds="the same, counts 0..5, three discounts", covers=["statistics"]),
    H("kn_stats.cc", ["ABSD=true"], bounds="the same, absolute discounting", covers=["statistics"]),
    H("kn_stats.cc", ["ABSD=true", "D3=1"], bounds="the same, absolute discounting, three discounts", covers=["statistics"]),
    H("kn_stats.cc", ["N=2", "NW=4"], bounds="order 2, 4 words", covers=["statistics"]),
    H("kn_stats.cc", ["N=4", "MAXC=2", "CAND={1,2,1,2},{2,2,1,1},{0,2,1,2},{2,1,0,0}"], bounds="order 4, 4 candidates", covers=["statistics"]),
    H("kn_stats.cc", ["N=5", "MAXC=2", "CAND={1,2,1,2,2},{2,2,1,1,1},{0,2,1,2,2},{2,1,0,0,1}"], bounds="order 5, 4 candidates", covers=["statistics"]),
    H("kn_stats.cc", ["SENT", "STARTS=4", "CAND={1,2,0},{2,2,0},{0,2,0},{1,2,2}", "D3=1"], bounds="sentence starts removed, three discounts", covers=["statistics"]),
    H("kn_stats.cc", ["SENT", "STARTS=4", "CAND={1,2,0},{2,2,0},{0,2,0},{1,2,2}"], bounds="sentence starts removed", covers=["statistics"]),
    H("kn_stats.cc", ["SENT", "STARTS=4", "CAND={1,2,0},{2,2,0},{0,2,0},{1,2,2}", "ABSD=true", "D3=1"], bounds="sentence starts removed, absolute discounting, three discounts", covers=["statistics"]),
])
TXT = "texts of up to %s symbolic characters (letters, spaces, newlines), order 3, "
PROPS["C18"] = dict(harnesses=[
    H("kn_text.cc", bounds=TXT % 6 + "vocabulary of the text", covers=["trained"]),
    H("kn_text.cc", ["CLEAR=1", "D3=1"], bounds=TXT % 6 + "history cleared at sentence starts", covers=["trained"]),
    H("kn_text.cc", ["CLEAR=1", "VOC=1", 'ALPHA="abc "'], bounds=TXT % 6 + "given vocabulary", covers=["trained"]),
    H("kn_text.cc", ["CLEAR=1", "VOC=1", "STORE=1"], bounds=TXT % 6 + "text kept in memory", covers=["trained"]),
    H("kn_text.cc", ["NFIRST=1", "ABSD=true"], bounds=TXT % 6 + "one most frequent word kept", covers=["trained"]),
    H("kn_text.cc", ["NFIRST=2", "D3=1", 'ALPHA="abc "'], bounds=TXT % 6 + "two most frequent words kept", covers=["trained"]),
    H("kn_text.cc", ["SHORTK"], bounds=TXT % 6 + "short word indices", covers=["trained"]),
    H("kn_text.cc", ["N=2"], bounds="the same, order 2", covers=["trained"]),
    H("kn_text.cc", ["L=8"], t=300, tiers=T, bounds=TXT % 8, covers=["trained"]),
    H("kn_text.cc", ["L=8", "CLEAR=1"], t=300, tiers=T, bounds=TXT % 8 + "history cleared", covers=["trained"]),
])
PROPS["C21"] = dict(harnesses=[
    H("kn_stats.cc", ["NORM", "MAXC=2"], bounds="order 3, 3 words, 5 candidate trigrams with counts 0..2, any discounts within their ranges; Kneser-Ney", covers=["normalised"]),
    H("kn_stats.cc", ["NORM", "MAXC=3", "D3=1", "CAND={1,2,1},{2,2,1},{0,2,1},{1,2,2}"], bounds="4 candidates with counts 0..3, three discounts", covers=["normalised"]),
    H("kn_stats.cc", ["NORM", "ABSD=true", "MAXC=2"], bounds="absolute discounting", covers=["normalised"]),
    H("kn_stats.cc", ["NORM", "ABSD=true", "MAXC=3", "D3=1", "CAND={1,2,1},{2,2,1},{0,2,1},{1,2,2}"], bounds="absolute discounting, three discounts", covers=["normalised"]),
    H("kn_stats.cc", ["NORM", "SENT", "STARTS=4", "MAXC=2", "D3=1", "CAND={1,2,0},{2,2,0},{0,2,0},{1,2,2}"], bounds="sentence starts removed, three discounts", covers=["normalised"]),
    H("kn_stats.cc", ["NORM", "SENT", "STARTS=4", "MAXC=2", "CAND={1,2,0},{2,2,0},{0,2,0},{1,2,2}"], bounds="sentence starts removed", covers=["normalised"]),
    H("kn_stats.cc", ["NORM", "MAXC=4", "D3=1"], t=300, tiers=T, bounds="5 candidates with counts 0..4", covers=["normalised"]),
    H("kn_stats.cc", ["NORM", "MAXC=4"], t=300, tiers=T, bounds="5 candidates with counts 0..4", covers=["normalised"]),
])
PROPS["C22"] = dict(harnesses=[
    H("kn_lm.cc", ["MAXC=2"], bounds="order 3, 3 words, 5 candidate trigrams with counts 0..2, fixed discounts", covers=["compared", "full order"]),
    H("kn_lm.cc", ["MAXC=2", "D3=1"], bounds="three discounts", covers=["compared", "full order"]),
    H("kn_lm.cc", ["MAXC=2", "D3=1", "PRUNE=1"], bounds="after pruning, three discounts", covers=["compared", "full order"]),
    H("kn_lm.cc", ["MAXC=2", "ABSD=true", "PRUNE=1"], bounds="after pruning, absolute discounting", covers=["compared", "full order"]),
    H("kn_lm.cc", ["CAND={1,2,1,2},{2,2,1,1},{0,2,1,2},{2,1,0,0}", "PRUNE=1", "CUTS=0,9,9,0", "N=4", "MAXC=1"], bounds="order 4, the middle orders cut off", covers=["compared", "full order"]),
    H("kn_lm.cc", ["CAND={1,2,1,2},{2,2,1,1},{0,2,1,2},{2,1,0,0}", "PRUNE=1", "CUTS=0,9,9,0", "N=4", "MAXC=1", "ARPA"], bounds="the same, written as interpolated ARPA", covers=["compared", "hashed", "full order"]),
    H("kn_lm.cc", ["MAXC=2", "ARPA"], bounds="written as interpolated ARPA and read back", covers=["compared", "hashed", "full order"]),
    H("kn_lm.cc", ["MAXC=2", "N=2", "NW=4"], bounds="order 2, 4 words", covers=["compared", "full order"]),
    H("kn_lm.cc", ["MAXC=4", "PRUNE=1"], t=300, tiers=T, bounds="counts 0..4, after pruning", covers=["compared", "full order"]),
])
CUTS = ["cut off", "unknown words discarded", "all pruned"]
PROPS["C24"] = dict(harnesses=[
    H("kn_prune.cc", ["MAXC=2"], bounds="order 3, 3 words, 5 candidate trigrams with counts 0..2, cutoffs 0..2", covers=CUTS),
    H("kn_prune.cc", ["MAXC=2", "D3=1"], bounds="three discounts", covers=CUTS),
    H("kn_prune.cc", ["MAXC=2", "ABSD=true"], bounds="absolute discounting", covers=CUTS),
    H("kn_prune.cc", ["MAXC=4", "N=2", "NW=4", "D3=1", "CAND={1,2,1},{2,2,1},{0,2,1},{1,3,1}"], bounds="order 2, 4 words, counts 0..4", covers=CUTS),
    H("kn_prune.cc", ["MAXC=3"], t=300, tiers=T, bounds="counts 0..3", covers=CUTS),
    H("kn_prune.cc", ["MAXC=3", "D3=1"], t=300, tiers=T, bounds="counts 0..3, three discounts", covers=CUTS),
    H("kn_prune.cc", ["MAXC=3", "D3=1", "ABSD=true"], t=300, tiers=T, bounds="counts 0..3, absolute discounting, three discounts", covers=CUTS),
])
PROPS["C27"] = dict(harnesses=[
    H("ngc.cc", ["NO=1"], bounds="texts of up to 5 words over 3, unigram counts", covers=["read back"]),
    H("ngc.cc", bounds="bigram counts", covers=["read back"]),
    H("ngc.cc", ["NO=3"], bounds="trigram counts", covers=["read back"]),
    H("ngc.cc", ["SHRINK"], bounds="vocabulary limited to 0..5 words, words below 0..2 dropped, bigrams", covers=["shrunk"]),
    H("ngc.cc", ["SHRINK", "NO=1"], bounds="the same, unigrams", covers=["shrunk"]),
    H("ngc_bad.cc", ["L=6"], t=120, bounds="count files with a symbolic line of up to 6 characters", covers=["read", "skipped", "unknown"]),
    H("ngc.cc", ["SHRINK", "T=7"], t=300, tiers=T, bounds="texts of up to 7 words", covers=["shrunk"]),
    H("ngc.cc", ["T=7"], t=300, tiers=T, bounds="texts of up to 7 words", covers=["read back"]),
])
PROPS["C15"] = dict(harnesses=[
    H("hash.cc", bounds="order 3, 3 words, any of 4 bigrams and 4 trigrams, fixed values", covers=["tree", "hash", "full order"]),
    H("hash.cc", ["INTERP"], bounds="the same, interpolated", covers=["tree", "hash", "full order"]),
    H("hash.cc", ["ORDER=4", "N2=3", "N3=2", "N4=2"], bounds="order 4, 3 bigrams, 2 trigrams and 2 four-grams", covers=["tree", "hash", "full order"]),
    H("hash.cc", ["SHORTK"], bounds="the same, short word indices", covers=["tree", "hash", "full order"]),
    H("hash.cc", ["SHORTK", "INTERP", "ORDER=2"], bounds="order 2, interpolated, short word indices", covers=["tree", "hash", "full order"]),
    H("hash.cc", ["SYMV", "N2=2", "N3=2"], bounds="2 bigrams and 2 trigrams, any values", covers=["tree", "hash", "full order"]),
    H("hash.cc", ["SYMV", "N2=3", "N3=3"], t=300, tiers=T, bounds="3 bigrams and 3 trigrams, any values", covers=["tree", "hash", "full order"]),
])
PROPS["C16"] = dict(harnesses=[
    H("hash.cc", ["ADDZ"], bounds="order 3, 3 words, any of 4 bigrams and 4 trigrams whether or not their prefixes are there", covers=["tree", "hash", "full order"]),
    H("hash.cc", ["ADDZ", "INTERP"], bounds="the same, interpolated", covers=["tree", "hash", "full order"]),
    H("hash.cc", ["ADDZ", "SHORTK"], bounds="the same, short word indices", covers=["tree", "hash", "full order"]),
    H("hash.cc", ["ADDZ", "SYMV", "N2=2", "N3=2"], bounds="2 bigrams and 2 trigrams, any values", covers=["tree", "hash", "full order"]),
    H("hash.cc", ["ADDZ", "ORDER=4", "N2=2", "N3=2", "N4=2"], bounds="order 4, any of 2 bigrams, 2 trigrams and 2 four-grams", covers=["tree", "hash", "full order"]),
    H("hash.cc", ["ADDZ", "APP"], apps=["add_zeroprob_grams"], bounds="the tool", covers=["tree", "hash", "full order"]),
    H("hash.cc", ["ADDZ", "APP", "INTERP"], apps=["add_zeroprob_grams"], bounds="the tool, interpolated", covers=["tree", "hash", "full order"]),
    H("hash.cc", ["ADDZ", "APP", "SHORTK"], apps=["add_zeroprob_grams"], bounds="the tool, short word indices", covers=["tree", "hash", "full order"]),
    H("hash_prune.cc", bounds="order 2, 3 words, 4 candidate bigrams with 4 probabilities, 3 unigram distributions, any threshold", covers=["pruned", "kept"]),
    H("hash_prune.cc", ["SHORTK"], bounds="the same, short word indices", covers=["pruned", "kept"]),
])
PROPS["C17"] = dict(harnesses=[
    H("hash_mix.cc", bounds="two order-2 models over 3 words, 3 candidate bigrams each, 3 weights", covers=["mixed"]),
    H("hash_mix.cc", ["ORDER=3", "READ", "NB=2"], bounds="order 3, written and read back by either model class", covers=["mixed"]),
    H("hash_mix.cc", ["ORDER=3", "DIFF", "NB=2"], bounds="orders 2 and 3", covers=["mixed"]),
    H("hash_mix.cc", ["SYMW", "NB=2"], bounds="order 2, any weight", covers=["mixed"]),
    H("hash_mix.cc", ["SYMW", "NB=1", "ORDER=3"], bounds="order 3, any weight", covers=["mixed"]),
    H("hash_mix.cc", ["NSUM", "SHORTK", "DIFF"], bounds="unigrams that do not sum to one, orders 1 and 2, short word indices", covers=["mixed"]),
    H("tools_mix.cc", apps=["simpleinterpolate2arpa"], bounds="the tool mixing two model files, several weights", covers=["mixed"]),
    H("tools_mix.cc", ["SAMEV"], apps=["simpleinterpolate2arpa"], bounds="the tool, models over the same words", covers=["mixed"]),
    H("tools_mix.cc", ["THREE=1"], apps=["simpleinterpolate2arpa"], bounds="the tool mixing three models", covers=["mixed"]),
    H("tools_mix.cc", ["THREE=1", "SAMEV"], apps=["simpleinterpolate2arpa"], t=300, tiers=T, bounds="three models over the same words", covers=["mixed"]),
    H("hash_mix.cc", ["ORDER=3", "DIFF", "READ"], t=300, tiers=T, bounds="orders 2 and 3, 3 candidate bigrams, read back", covers=["mixed"]),
    H("hash_mix.cc", ["SYMW"], t=300, tiers=T, bounds="3 candidate bigrams, any weight", covers=["mixed"]),
])
PROPS["C19"] = dict(harnesses=[
    H("moc.cc", ["PRE=2", "OPS=2"], bounds="2 earlier changes, 2 trial changes over 7 grams and 5 contexts, any values", covers=["undone"]),
    H("moc.cc", ["PRE=1", "OPS=3"], bounds="1 earlier change, 3 trial changes", covers=["undone"]),
    H("moc.cc", ["PRE=1", "OPS=2", "D3=1"], bounds="the same, three count classes", covers=["undone"]),
    H("moc.cc", ["PRE=0", "OPS=2", "ROUNDS=2"], bounds="two trials of 2 changes, the first kept or undone", covers=["undone", "kept"]),
    H("moc.cc", ["PRE=2", "OPS=2", "D3=1"], t=300, tiers=T, bounds="2 and 2 changes, three count classes", covers=["undone"]),
    H("moc.cc", ["PRE=2", "OPS=3"], t=400, tiers=T, bounds="2 earlier changes, 3 trial changes", covers=["undone"]),
])

PROPS["C23"] = dict(harnesses=[
    H("vari.cc", ["LEN=5"], bounds="every text of 5 words over 3, data cost symbolic", covers=["all", "none", "nothing pays"]),
    H("vari.cc", bounds="texts of 6 words", covers=["all", "none", "some"]),
    H("vari.cc", ["D3=1"], bounds="texts of 6 words, three discounts", covers=["all", "none"]),
    H("vari.cc", ["ABSD=true"], bounds="texts of 6 words, absolute discounting", covers=["all", "none"]),
    H("vari.cc", ["SMALL=true"], bounds="texts of 6 words, short word indices", covers=["all", "none"]),
    H("vari.cc", ["CLEAR=1"], bounds="history cleared at sentence starts", covers=["all", "none"]),
    H("vari.cc", ["CLEAR=1", "FIRST=\"<s>\"", "LEN=5"], bounds="the same, the text starts with a sentence start", covers=["all", "none"]),
    H("vari.cc", ["PRUNE=1"], bounds="texts of 6 words, pruned while growing", covers=["all", "none"]),
    H("vari.cc", ["MAXO=2"], bounds="largest order 2", covers=["all", "none"]),
    H("vari.cc", ["LEN=7"], t=300, bounds="texts of 7 words", covers=["all", "none", "some"]),
    H("vari.cc", ["CLEAR=1", "D3=1"], t=300, tiers=T, bounds="history cleared, three discounts", covers=["all", "none"]),
    H("vari.cc", ["CLEAR=1", "PRUNE=1"], t=300, tiers=T, bounds="history cleared, pruned while growing", covers=["all", "none"]),
    H("vari.cc", ["CLEAR=1", "SMALL=true", "ABSD=true"], t=300, tiers=T, bounds="history cleared, short indices, absolute discounting", covers=["all", "none"]),
])
PROPS["C25"] = dict(harnesses=[
    H("kn_io.cc", ["MAXC=2"], bounds="order 3, 3 words, 5 candidate trigrams with counts 0..2", covers=["read back", "empty"]),
    H("kn_io.cc", ["MAXC=2", "D3=1"], bounds="three discounts", covers=["read back", "empty"]),
    H("kn_io.cc", ["MAXC=2", "HIGH=1"], bounds="a model made from highest-order counts", covers=["read back", "empty"]),
    H("kn_io.cc", ["MAXC=2", "HIGH=1", "ABSD=true"], bounds="the same, absolute discounting", covers=["read back", "empty"]),
    H("kn_io.cc", ["MAXC=2", "HIGH=1", "SHORTK", "D3=1"], bounds="the same, short indices, three discounts", covers=["read back", "empty"]),
    H("kn_io.cc", ["MAXC=2", "PRUNE=1", "D3=1"], bounds="after pruning, three discounts", covers=["read back", "empty"]),
    H("kn_io.cc", ["MAXC=2", "LONGC"], bounds="64-bit counts", covers=["read back", "empty"]),
    H("kn_io.cc", ["MAXC=2", "LONGC", "PRUNE=1", "ABSD=true"], bounds="64-bit counts, after pruning, absolute discounting", covers=["read back", "empty"]),
    H("kn_io.cc", ["MAXC=2", "LONGC", "HIGH=1", "ABSD=true"], bounds="64-bit counts, highest-order counts", covers=["read back", "empty"]),
    H("kn_io.cc", ["MAXC=3", "ABSD=true", "PRUNE=1", "SHORTK"], bounds="counts 0..3, absolute discounting, pruned, short indices", covers=["read back", "empty"]),
    H("kn_bad.cc", bounds="count files with 4 arbitrary characters", covers=["a broken line", "the rest is read"]),
    H("kn_bad.cc", ["D3=1"], bounds="the same, three discounts", covers=["a broken line", "the rest is read"]),
    H("kn_bad.cc", ["L=5"], t=300, tiers=T, bounds="5 arbitrary characters", covers=["a broken line", "the rest is read"]),
    H("kn_bad.cc", ["L=5", "D3=1"], t=300, tiers=T, bounds="5 arbitrary characters, three discounts", covers=["a broken line", "the rest is read"]),
])
PV = ["known", "unknown"]
KX = ("with morphs marked and unknown tokens dropped, a word with an unknown part is not dropped as a whole: "
      "%s")
PROPS["C26"] = dict(harnesses=[
    H("perp.cc", bounds="4 tokens, order 2, any values", covers=PV),
    H("perp.cc", ["MODE=1"], bounds="words made of morphs between break symbols", covers=PV),
    H("perp.cc", ["MODE=2"], bounds="words made of morphs marked at their end", covers=PV),
    H("perp.cc", ["MODE=3"], bounds="words made of morphs marked at their start", covers=PV),
    H("perp.cc", ["MODE=2", "LONGM", "LEN=3"], bounds="3 tokens, marks of two letters at the end", covers=PV),
    H("perp.cc", ["MODE=3", "LONGM", "LEN=3"], bounds="3 tokens, marks of two letters at the start", covers=PV),
    H("perp.cc", ["SKIP=0"], bounds="unknown tokens scored", covers=PV),
    H("perp.cc", ["SKIP=0", "MODE=1"], bounds="unknown tokens scored, break symbols", covers=PV),
    H("perp.cc", ["SKIP=0", "MODE=2"], bounds="unknown tokens scored, marked ends", covers=PV),
    H("perp.cc", ["SKIP=0", "MODE=3"], bounds="unknown tokens scored, marked starts", covers=PV),
    H("perp.cc", ["CUES=1", "ORD=3"], bounds="context cues, order 3", covers=PV),
    H("perp.cc", ["INIT=1"], bounds="an initial history that is not scored", covers=PV),
    H("perp.cc", ["INIT=2", "MODE=1"], bounds="the same with words of morphs", covers=PV),
    H("perp.cc", ["INIT=2", "MODE=2"], bounds="the same, marked ends", covers=PV),
    H("perp.cc", ["SYMV=0"], bounds="per-word output", covers=PV + ["printed"]),
    H("perp.cc", ["SYMV=0", "MODE=2"], bounds="per-word output, marked ends", covers=PV + ["printed"]),
    H("perp.cc", ["SYMV=0", "MODE=3"], bounds="per-word output, marked starts", covers=PV + ["printed"]),
    H("perp.cc", ["SYMV=0", "CUES=1", "ORD=3"], bounds="per-word output, context cues", covers=PV + ["printed"]),
    H("perp.cc", ["SYMV=0", "SKIP=0"], bounds="per-word output, unknown tokens scored", covers=PV + ["printed"]),
    H("perp.cc", ["SYMV=0", "INTERVAL=2"], bounds="output of sums over two tokens", covers=PV + ["printed"]),
    H("perp.cc", ["SYMV=0", "LEN=3", "BINFILE"], bounds="3 tokens, a binary model named by its file", covers=PV + ["printed"]),
    H("perp.cc", ["SENT=1"], bounds="one sentence given as text", covers=["sentence"]),
    H("perp.cc", ["SENT=1", "MODE=2"], bounds="one sentence, marked ends", covers=["sentence"]),
    H("perp.cc", ["APP", "SYMV=0", "LEN=3"], apps=["perplexity"], bounds="the perplexity tool, 3 tokens", covers=["printed"]),
    H("perp.cc", ["APP", "SYMV=0", "LEN=3", "MODE=1"], apps=["perplexity"], bounds="the tool, break symbols", covers=["printed"]),
    H("perp.cc", ["APP", "SYMV=0", "LEN=3", "MODE=2", "SKIP=0"], apps=["perplexity"], bounds="the tool, marked ends, unknown tokens scored", covers=["printed"]),
    H("perp.cc", ["APP", "SYMV=0", "LEN=3", "MODE=3", "INIT=1"], apps=["perplexity"], bounds="the tool, marked starts, initial history", covers=["printed"]),
    H("perp.cc", ["APP", "SYMV=0", "CUES=1", "ORD=3"], apps=["perplexity"], bounds="the tool, 4 tokens, context cues", covers=["printed"]),
    H("perp.cc", ["INIT=1", "ORD=3"], bounds="an initial history, order 3", covers=PV),
    H("perp.cc", ["INIT=2", "ORD=3"], bounds="an initial history of two, order 3", covers=PV),
    H("perp.cc", ["OOVALT"], bounds="another name of the unknown word", covers=PV),
    H("perp.cc", ["APP", "SYMV=0", "LEN=3", "OOVALT"], apps=["perplexity"], bounds="the tool, another name of the unknown word", covers=["printed"]),
    H("perp.cc", ["APP", "SYMV=0", "LEN=3", "CUES=1", "MODE=1", "SKIP=0"], apps=["perplexity"], bounds="the tool, context cues, break symbols, unknown tokens scored", covers=["printed"]),
    H("perp.cc", ["LEN=5", "ORD=3"], t=300, bounds="5 tokens, order 3", covers=PV),
    H("perp.cc", ["MODE=2", "LEN=2", "KNOWN"], bounds="the excluded words, marked ends",
      known=KX % "marked ends and an unknown last part"),
    H("perp.cc", ["MODE=3", "LEN=3", "KNOWN"], bounds="the excluded words, marked starts",
      known=KX % "marked starts and an unknown later part takes the next word with it"),
    H("perp_mix.cc", bounds="two models of order 1 and 2 with different words, 3 tokens, any weight", covers=["dropped", "in both", "in one"]),
    H("perp_mix.cc", ["ORDA=2", "ORDB=1"], bounds="orders 2 and 1", covers=["dropped", "in both", "in one"]),
    H("perp_mix.cc", ["HASH=0", "ORDA=1", "ORDB=2"], bounds="tree models", covers=["dropped", "in both", "in one"]),
    H("perp_mix.cc", ["HASH=-1", "BEFORE=1"], bounds="weight given first", covers=["dropped", "in both", "in one"]),
    H("perp_mix.cc", ["HASH=0", "ORDA=2", "ORDB=1", "BEFORE=1"], bounds="tree models, weight first", covers=["dropped", "in both", "in one"]),
    H("perp_mix.cc", ["APP"], apps=["perplexity"], bounds="the tool with two models", covers=["dropped", "in both", "in one"]),
    H("perp_mix.cc", ["APP", "ORDA=2", "ORDB=1"], apps=["perplexity"], bounds="the tool, orders 2 and 1", covers=["dropped", "in both", "in one"]),
    H("perp_mix.cc", ["LEN=4", "ORDA=2", "ORDB=3"], t=300, tiers=T, bounds="4 tokens, orders 2 and 3", covers=["dropped", "in both", "in one"]),
    H("longtok.cc", ["PERP"], bounds="a token as long as the reading buffers and around", covers=["in pieces", "whole"]),
])
PROPS["C28"] = dict(harnesses=[
    H("lists.cc", bounds="texts of 5 words over 3, pairs, in memory and in a file", covers=["found", "not found", "short"]),
    H("lists.cc", ["ORDER=3"], bounds="triples", covers=["found", "not found", "short"]),
    H("lists.cc", ["ORDER=4"], bounds="4-grams", covers=["found", "not found", "short"]),
    H("lists.cc", ["CLEAR=1", "ORDER=3"], bounds="history cleared at sentence starts", covers=["found", "not found", "short"]),
    H("lists.cc", ["SHORTK", "ORDER=3"], bounds="short word indices", covers=["found", "not found", "short"]),
    H("lists.cc", ["CUR=1", "ORDER=3"], bounds="lists for the grams of the table itself", covers=["found", "not found"]),
    H("lists.cc", ["LEN=6", "ORDER=3"], t=300, tiers=T, bounds="texts of 6 words", covers=["found", "not found", "short"]),
    H("longtok.cc", bounds="a token as long as the reading buffers and around", covers=["in pieces", "whole"]),
])
FND = ["found"]
PROPS["C29"] = dict(harnesses=[
    H("qfit.cc", ["MAXIT=1"], bounds="any parabola, 1 step", covers=FND),
    H("qfit.cc", ["MAXIT=2"], bounds="any parabola, 2 steps", covers=FND),
    H("qfit.cc", ["MAXIT=2", "SHAPE=1"], bounds="any absolute value, 2 steps", covers=FND),
    H("qfit.cc", ["MAXIT=2", "SHAPE=2"], bounds="any pair of slopes, 2 steps", covers=FND),
    H("qfit.cc", ["MAXIT=3"], t=300, tiers=T, bounds="any parabola, 3 steps", covers=FND),
    H("qfit.cc", ["GRID=256"], bounds="256 parabolas to the end", covers=FND),
    H("qfit.cc", ["GRID=256", "SHAPE=1"], bounds="256 absolute values to the end", covers=FND),
    H("qfit.cc", ["GRID=256", "SHAPE=2"], bounds="256 pairs of slopes to the end", covers=FND),
    H("qfit.cc", ["GRID=256", "HI=3", "START=1"], bounds="limits 0..3, starting at 1", covers=FND),
    H("qfit.cc", ["GRID=256", "HI=2", "START=0"], bounds="limits 0..2, starting at the limit", covers=FND),
    H("qfit.cc", ["GRID=20", "DIM=2"], bounds="two dimensions", covers=FND),
    H("qfit.cc", ["GRID=20", "DIM=2", "SHAPE=1"], bounds="two dimensions, absolute values", covers=FND),
    H("kn_disc.cc", bounds="leave-one-out estimates, 5 candidate trigrams", covers=["estimated", "kept"]),
    H("kn_disc.cc", ["D3=1", "MAXC=4"], bounds="three discounts, counts 0..4", covers=["estimated", "kept", "some estimated"]),
    H("kn_disc.cc", ["MODE=1"], bounds="log-probability of a text of 3 words", covers=["scored"]),
    H("kn_disc.cc", ["MODE=1", "CLEAR=1", "D3=1"], bounds="the same, history cleared, three discounts", covers=["scored"]),
    H("kn_disc.cc", ["MODE=2", "N=1", "LEN=4", "NW=4", "SLACK=.005"], bounds="optimised for every text of 4 words, order 1", covers=["better"]),
    H("kn_disc.cc", ["MODE=2", "N=2", "LEN=4", "SLACK=.005"], bounds="order 2", covers=["better"]),
    H("kn_disc.cc", ["MODE=2", "LEN=4", "SLACK=.005"], bounds="order 3", covers=["better"]),
    H("kn_disc.cc", ["MODE=2", "N=2", "LEN=4", "D3=1", "SLACK=.005"], bounds="order 2, three discounts", covers=["better"]),
    H("kn_disc.cc", ["MODE=2", "N=2", "LEN=4", "ABSD=true", "SLACK=.005"], bounds="order 2, absolute discounting", covers=["better"]),
    H("kn_disc.cc", ["MODE=2", "N=2", "LEN=4", "CLEAR=1", "SLACK=.005"], bounds="order 2, history cleared", covers=["better"]),
])
TA = ["arpa2bin", "bin2arpa", "arpa2arpa", "arpasize"]
PROPS["C30"] = dict(harnesses=[
    H("tools.cc", apps=TA, bounds="ARPA files of back-off and interpolated models up to order 3, converted by each tool", covers=["backoff", "interpolated"]),
    H("tools.cc", ["CHAIN"], apps=TA, bounds="the tools run one on the output of the other", covers=["backoff", "interpolated"]),
    H("tools.cc", ["SIZE"], apps=TA, bounds="sizes reported for text and binary models", covers=["binary", "simple", "text"]),
])
TR = ["trained", "full order"]
GW = ["grown", "with longer grams"]
TXT2 = "the tool on every text of 4 words over 3, order 3"
def tr(defs, b, cov=TR, **kw):
    return H("train.cc", ["GROUP=%s" % defs[0]] + defs[1:], apps=["counts2kn"], bounds=TXT2 + ": " + b, covers=cov, **kw)
def gr(defs, b, cov=GW, **kw):
    return H("grow.cc", ["GROUP=%s" % defs[0]] + defs[1:], apps=["varigram_kn"], bounds=TXT2 + ": " + b, covers=cov, **kw)
PROPS["C24"]["harnesses"] += [
    tr(["3"], "any pruning threshold"),
    tr(["3", "D3"], "any pruning threshold, three discounts", cov=TR + ["one outcome"]),
    tr(["3", "ABSD"], "pruning, absolute discounting", tiers=T),
    tr(["3", "D3", "CLEAR"], "pruning, history cleared, three discounts", tiers=T),
]
PROPS["C23"]["harnesses"] += [
    gr(["3", "LEN=6"], "texts of 6 words, what each growing round takes in"),
    gr(["3", "D3"], "what each growing round takes in, three discounts"),
    gr(["3", "ABSD"], "what each growing round takes in, absolute discounting", tiers=T),
    gr(["3", "CLEAR"], "what each growing round takes in, history cleared", tiers=T),
    gr(["3", "LEN=7"], "texts of 7 words", t=300, tiers=T),
]
PROPS["C31"] = dict(harnesses=[
    tr(["0"], "output forms and index widths"),
    tr(["0", "D3", "ABSD", "CLEAR"], "output forms, absolute discounting, three discounts, history cleared"),
    tr(["1"], "cutoffs, limited and given vocabularies, discounts"),
    tr(["1", "D3"], "cutoffs, three discounts"),
    tr(["2"], "counts written and read back, fewest words"),
    tr(["2", "CLEAR", "D3"], "counts written and read back, history cleared, three discounts"),
    gr(["0"], "output forms, index widths, memory use", cov=["grown", "full order"]),
    gr(["0", "D3", "CLEAR"], "output forms, three discounts, history cleared", cov=["grown", "full order"]),
    gr(["1"], "cutoffs, pruning, vocabularies"),
    gr(["2"], "largest orders and target sizes"),
    tr(["0", "N=2"], "order 2", tiers=T),
    tr(["0", "CLEAR"], "output forms, history cleared", tiers=T),
    tr(["1", "CLEAR", "LEN=5"], "cutoffs, texts of 5 words", t=300, tiers=T),
    tr(["1", "ABSD", "CLEAR"], "cutoffs, absolute discounting", tiers=T),
    gr(["0", "ABSD"], "output forms, absolute discounting", cov=["grown", "full order"], tiers=T),
    gr(["1", "D3"], "cutoffs, three discounts", tiers=T),
    gr(["2", "D3"], "largest orders and target sizes, three discounts", tiers=T),
])
