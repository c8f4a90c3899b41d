#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P=[]
def p(id,title,st,over,q,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
IH=["inputs","histories"]
p("C01","Theta update sketch keeps exactly the distinct hashes below theta",
  "After any sequence of updates (and trims), a theta update sketch retains exactly the set of distinct non-zero hashes of the items fed to it that are below its current theta, once each, and its retained count is that set's size. Theta never increases and falls below its starting value only while at least k hashes stay retained. Feeding a duplicate changes nothing.",
  IH,"every item hash value (the hash function is arbitrary), every order of updates, every table fill level incl. resize and rebuild",
  "tests feed consecutive integers under Murmur3 and look at estimates; probing collisions, rebuild at every order of hash values and boundary hashes are never enumerated",
  ["theta/hashtable.go","theta/update_sketch.go","internal/quick_select.go"],
  [("open-addressing find/insert","theta/hashtable.go"),("resize and quick-select rebuild","theta/hashtable.go")])
p("C02","Theta union holds exactly the union of its inputs below the result theta",
  "For any sequence of sketches given to a theta union, the result retains exactly the distinct hashes contained in any input that are below the result's theta, and the result's theta is at most every input's theta. The result retains at most k hashes when it leaves exact mode, is empty exactly when every input was empty, and is the same set whatever form (update, compact, ordered or not) the inputs have.",
  IH,"all input sketches within size bounds with arbitrary hash values and thetas, in every order",
  "tests check estimates of a few fixed integer ranges",
  ["theta/union.go","theta/hashtable.go","theta/compact_sketch.go"],[("hash-table union with theta tracking","theta/union.go"),("result trimming","theta/union.go")])
p("C03","Theta intersection and A-not-B are exact set operations below the result theta",
  "The result of a theta intersection retains exactly the hashes that are in every input and below the minimum input theta; the result of A-not-B retains exactly the hashes of A that are not in B and are below the minimum of both thetas. The emptiness flag, theta and ordering of the results are those of the corresponding set operation, for any mix of ordered, unordered, empty and single-item inputs.",
  IH,"all pairs/triples of input sketches within size bounds, arbitrary hashes and thetas, ordered or not",
  "tests use a few ranges and check estimates and counts; early-exit paths on ordered inputs and boundary thetas are not enumerated",
  ["theta/intersection.go","theta/a_not_b.go"],[("hash-table matching with early exit on ordered input","theta/intersection.go"),("merge/lookup difference","theta/a_not_b.go")])
p("C04","Theta serialization is lossless in every format",
  "Serializing a compact theta sketch and reading it back, compressed or not, by decoding or by wrapping, yields a sketch with the same retained hashes in the same order, theta, emptiness, ordering and seed hash; the serialized size equals the announced size. A sketch serialized under one seed is rejected under a seed with a different seed hash.",
  ["inputs","configurations"],"arbitrary retained hash values and thetas within size bounds, all bit widths of the packed format, both formats and all readers",
  "tests round-trip a handful of integer ranges, so most packing widths, deltas and byte counts never occur",
  ["theta/encoder.go","theta/decoder.go","theta/bit_packing.go","theta/compact_sketch.go","theta/wrapped_compact_sketch.go"],
  [("delta bit packing","theta/bit_packing.go"),("preamble encode/decode","theta/encoder.go")])
p("C05","Theta decoding of arbitrary bytes fails cleanly",
  "Decoding or wrapping any byte string as a theta sketch either returns an error or returns a sketch whose accessors and iteration work: it never panics and never loops forever.",
  ["inputs"],"every byte string up to the stated length",
  "tests feed valid images and a few hand-made corruptions",
  ["theta/decoder.go","theta/wrapped_compact_sketch.go","theta/utils.go"],[("length and header validation","theta/decoder.go")])
p("C06","Tuple sketches carry the exact summary of every retained key",
  "A tuple update sketch retains exactly the distinct key hashes below theta, each with the summary obtained by applying that key's updates in order. Union, intersection and A-not-B results contain exactly the keys of the set operation below the result theta, with summaries combined by the policy (left operand's summary for A-not-B), and inputs are left unmodified.",
  IH,"arbitrary key hashes and summary values, every order, within size bounds",
  "tests check counts for fixed ranges; summary routing across collisions, rebuilds and mixed inputs is sampled only",
  ["tuple/hashtable.go","tuple/update_sketch.go","tuple/union.go","tuple/intersection.go","tuple/a_not_b.go"],[("summary-carrying hash table","tuple/hashtable.go")])
p("C07","Tuple sketch serialization is lossless",
  "Encoding and decoding a tuple sketch (generic summary, array of numbers) returns the same keys in the same order with the same summaries, theta, emptiness and seed hash.",
  ["inputs","configurations"],"arbitrary keys, thetas and summary values within size bounds",
  "tests round-trip fixed contents",
  ["tuple/encoder.go","tuple/decoder.go","tuple/arrayofnumbers_sketch_encoder.go","tuple/arrayofnumbers_sketch_decoder.go"],[("preamble and entry encode/decode","tuple/encoder.go")])
p("C08","HLL registers are the maximum over the distinct items in every mode and encoding",
  "The content of an HLL sketch after any sequence of updates is, in list and set mode, exactly the set of distinct item coupons, and in HLL mode, for every bucket, the maximum value of the coupons that fell in it, for 4-, 6- and 8-bit encodings alike. It does not depend on update order or duplicates, and copying to another encoding preserves it. The estimator state agrees with the registers, and the bounds bracket the estimate.",
  IH,"arbitrary item hashes, every order, across the list, set and array modes and exceptions of the 4-bit encoding",
  "tests feed consecutive integers; 4-bit exceptions, base shifts and mode transitions at adversarial hashes are rare events there",
  ["hll/hll_sketch.go","hll/coupon_list.go","hll/coupon_hash_set.go","hll/hll_4array.go","hll/hll_4update.go","hll/hll_6array.go","hll/hll_8array.go","hll/aux_hash_map.go","hll/hll_array.go"],
  [("coupon list/set and promotion","hll/coupon_list.go"),("4-bit arrays with exceptions","hll/hll_4update.go"),("aux hash map","hll/aux_hash_map.go")])
p("C09","HLL union registers are the bucket-wise maximum of its inputs",
  "The result of an HLL union of sketches (any modes, encodings and sizes, in any order) has, for every bucket of its final size, the maximum over all inputs of the values folded to that size, and equals the sketch of the concatenated inputs when no size reduction happens. Its result converted to any encoding has the same content, the union's own estimates and bounds are those of its result, and the inputs are left unmodified. (An update that the union refuses with an error leaves it unchanged.)",
  IH,"arbitrary contents of the inputs within bounds, all mode/encoding/size combinations, every order",
  "tests compare estimates for integer ranges",
  ["hll/union.go","hll/hll_array.go"],[("union by cases of mode and lgK","hll/union.go")])
p("C10","HLL serialization is lossless in every mode and encoding",
  "Serializing an HLL sketch in compact or updatable form and reading it back gives the same registers or coupons, mode, encoding and estimate, and further identical updates keep both equal. The sketch read does not depend on the bytes afterwards.",
  ["inputs","configurations"],"arbitrary contents within bounds, list/set/HLL modes, HLL_4/6/8, compact and updatable",
  "tests round-trip fixed integer streams",
  ["hll/to_slice_impl.go","hll/hll_sketch.go","hll/preamble_utils.go"],[("memory images","hll/to_slice_impl.go")])
p("C11","CPC sketch contents equal the set of distinct (row, column) coupons",
  "After any sequence of updates a CPC sketch represents exactly the set of distinct coupons of the items fed, in every flavor, and its coupon count is the size of that set. The represented set does not depend on update order or duplicates.",
  IH,"arbitrary item hashes, every order, across sparse, hybrid, pinned and sliding flavors",
  "tests feed consecutive integers; surprising-value table collisions, window moves and out-of-window coupons at adversarial hashes are not enumerated",
  ["cpc/cpc_sketch.go","cpc/pair_table.go","cpc/bit_matrix.go"],[("sparse/windowed update","cpc/cpc_sketch.go"),("pair table","cpc/pair_table.go")])
p("C12","CPC serialization and compression are lossless",
  "Serializing a CPC sketch and reading it back gives a sketch with the same coupons, count, flavor, estimator state and parameters, for every flavor.",
  ["inputs","configurations"],"arbitrary coupon sets within bounds in every flavor",
  "tests round-trip integer streams, so only the typical symbols of the entropy coder occur",
  ["cpc/cpc_compressed_state.go","cpc/cpc_sketch.go","cpc/utils.go","cpc/compression_data.go"],[("entropy coding of window and table","cpc/cpc_compressed_state.go")])
p("C13","CPC union represents the union of the coupons of its inputs",
  "The result of a CPC union of sketches in any order represents exactly the union of the inputs' coupons folded to the union's final size, which is the smallest size seen among non-empty inputs and the union's own. The inputs are left unmodified.",
  IH,"arbitrary inputs within bounds, every flavor and size combination, every order",
  "tests compare fixed integer ranges",
  ["cpc/cpc_union.go"],[("accumulator vs bit-matrix states","cpc/cpc_union.go")])
p("C14","KLL sketches conserve weight, minimum and maximum",
  "After any sequence of updates and merges, whatever the random compaction choices, the weights of a KLL sketch's retained items sum to the number of items fed, every retained item was fed, the minimum and maximum are those of the stream, and items in each level above the lowest stay sorted. No item is retained twice, a sketch that never compacted retains exactly the items fed, and over the equally likely coin outcomes the expected weight of every item is one.",
  IH,"arbitrary item values and orders, every coin-flip outcome, stream lengths and merges within bounds",
  "tests run one random stream per size; a lost or duplicated item for one coin outcome hides in the error tolerance",
  ["kll/items_sketch.go","kll/utils.go"],[("level compaction","kll/items_sketch.go"),("merge of levels","kll/items_sketch.go")])
p("C15","KLL rank, quantile, CDF and PMF answers agree with the retained items",
  "A KLL sketch's rank of any item is the retained weight at or below it (inclusive) or strictly below it (exclusive) divided by n; quantiles are the inverse of that rank function and always retained items or the extremes; CDF and PMF agree with ranks and end at 1. Queries do not change the sketch and remain correct after further updates.",
  IH,"arbitrary contents, ranks and split points within bounds",
  "tests check monotone integer streams",
  ["kll/items_sketch_sorted_view.go","kll/items_sketch.go","internal/inequality_search.go"],[("sorted view and inequality search","kll/items_sketch_sorted_view.go")])
p("C16","KLL serialization is lossless",
  "Serializing a KLL sketch and reading it back yields the same items per level, n, k, minimum and maximum, and the serialized size equals the announced size.",
  ["inputs","configurations"],"arbitrary item values and sketch sizes within bounds (empty, single, multi-level)",
  "tests round-trip fixed streams",
  ["kll/items_sketch.go","kll/preamble_utils.go"],[("image layout","kll/items_sketch.go")])
p("C17","REQ sketches conserve weight, minimum and maximum",
  "After any sequence of updates and merges, whatever the random compaction choices, the weights of a REQ sketch's retained items sum to the number of items fed, every retained item was fed, and the minimum and maximum are those of the stream; in high-rank-accuracy mode the 3k largest items (in low-rank mode the 3k smallest, k being the smaller one after a merge of different sizes) stay retained with weight one. Over the equally likely outcomes of the compaction coins, the expected rank of every item is its true rank. A merge leaves its operand as it was.",
  IH,"arbitrary float values and orders, every coin outcome, both accuracy modes, within bounds",
  "tests run fixed streams with one coin sequence",
  ["req/sketch.go","req/compactor.go"],[("section compaction","req/compactor.go")])
p("C18","REQ rank, quantile, CDF and PMF answers agree with the retained items",
  "A REQ sketch's rank of any value is the retained weight at or below it (inclusive) or strictly below it (exclusive) divided by n, where a minimum or maximum that is no longer retained counts as one item; quantiles invert it; CDF and PMF agree with ranks; rank and quantile bounds exist for every rank and enclose it. Queries do not change the sketch and remain correct after further updates.",
  IH,"arbitrary contents, ranks and split points within bounds",
  "tests check fixed integer streams",
  ["req/sketch.go","internal/quantiles"],[("sorted view","internal/quantiles")])
p("C19","Frequency sketches bound every item's true frequency",
  "For every item, fed or not, a frequency sketch's lower bound is at most and its upper bound at least the item's true total weight, the difference is at most the reported maximum error, and the stream length is the exact sum of weights, after any sequence of weighted updates and merges. While fewer distinct items than the map capacity were seen every estimate is exact.",
  IH,"arbitrary items, weights and orders (arbitrary hash placement for the generic sketch), purges and merges within bounds",
  "tests sample random streams; a purge that drops an item or an offset lost in merging shows only for particular placements",
  ["frequencies/longs_sketch.go","frequencies/items_sketch.go","frequencies/reverse_purge_long_hash_map.go","frequencies/reverse_purge_item_hash_map.go"],
  [("reverse purge hash map","frequencies/reverse_purge_long_hash_map.go"),("purge and offset","frequencies/longs_sketch.go")])
p("C20","Frequent-item queries and serialization of frequency sketches are exact",
  "A frequent-items query returns exactly the tracked items whose lower bound (no false positives) or upper bound (no false negatives) is at least the threshold (never below the maximum error), with their bounds, in descending order of estimate. Serializing a frequency sketch to bytes or text and reading it back preserves every bound, the stream length and the maximum error.",
  IH,"arbitrary contents within bounds, both error types, any threshold",
  "tests use a few fixed maps",
  ["frequencies/longs_sketch.go","frequencies/items_sketch.go","frequencies/row.go"],[("row building","frequencies/row.go")])
p("C21","Reservoir sampling keeps a uniform-size sample of the stream",
  "A reservoir sketch after n updates holds min(n, k) of the items fed, at distinct stream positions, whatever the random choices; while n is at most k it holds all items in order. Every position of the stream is equally likely to be held, and a union keeps the samples of its inputs in proportion to the stream lengths they stand for. Union results hold only items of the inputs, with n the sum of the input lengths and at most the maximum k samples, and serialization preserves items, n and k.",
  IH,"arbitrary items, every random outcome, stream lengths and unions within bounds",
  "tests run one random sequence",
  ["sampling/reservoir_items_sketch.go","sampling/reservoir_items_union.go"],[("reservoir replacement","sampling/reservoir_items_sketch.go")])
p("C22","VarOpt sampling conserves total weight and keeps heavy items",
  "After any sequence of weighted updates a VarOpt sketch holds min(n, k) samples, all fed items, with heavy items at their original weight and the others at an adjusted weight no smaller than tau, so that the sample weights sum to the total weight fed, and the expected adjusted weight of every item is its weight; unions do the same for the items of all inputs, and serialization preserves the samples, weights, n and k and the ability to go on.",
  IH,"arbitrary small weights and orders, every random outcome, within bounds",
  "tests run one random sequence per configuration",
  ["sampling/varopt_items_sketch.go","sampling/varopt_items_sketch_encoder.go","sampling/varopt_items_sketch_decoder.go"],[("heap and reservoir regions","sampling/varopt_items_sketch.go")])
p("C23","Bloom filters have no false negatives and their algebra is exact",
  "A Bloom filter answers true for every item ever added, through any sequence of updates, unions, serialization round trips and copies; union, intersection and inversion are the bitwise operations, the reported number of bits used is exact, and a filter only combines with compatible filters. Query-and-update reports the membership before the update.",
  IH,"arbitrary item hashes, filter sizes and hash counts within bounds",
  "tests check fixed integer ranges",
  ["filters/bloom_filter.go","filters/bit_array.go"],[("double hashing","filters/bloom_filter.go"),("bit array","filters/bit_array.go")])
p("C24","Count-min estimates never undercount and stay within the reported bounds",
  "For non-negative weights, a count-min sketch's estimate of any item is at least its true total weight and at most the total weight of the stream, the lower bound equals the estimate and the upper bound adds the relative error; merging equals sketching the concatenated streams and serialization preserves all answers.",
  IH,"arbitrary items, hashes and weights within bounds",
  "tests check fixed streams",
  ["count/count_min_sketch.go"],[("row counters","count/count_min_sketch.go")])
p("C25","t-digest conserves weight, minimum and maximum and answers within range",
  "After any sequence of finite updates and merges a t-digest's total weight is the number of values fed and its minimum and maximum are exact; quantiles lie between them and do not decrease with the rank, and ranks lie between 0 and 1 and do not decrease with the value; a digest of few values answers them exactly; serialization preserves all of these with or without the buffer. Magnitudes up to 1e300.",
  IH,"arbitrary finite values and orders within bounds (buffered, single-value and few-centroid digests)",
  "tests check fixed streams",
  ["tdigest/double.go","tdigest/double_encoder.go","tdigest/double_decoder.go"],[("buffer merge","tdigest/double.go")])
p("C26","Decoders of all sketch families fail cleanly on arbitrary bytes",
  "Reading any byte string as a serialized HLL, CPC, KLL, frequency, reservoir, VarOpt, Bloom, count-min, tuple or t-digest sketch returns an error or a usable sketch; it never panics, loops forever or allocates without regard to the input length (an empty Bloom or count-min image may allocate the table it declares).",
  ["inputs"],"every byte string up to the stated lengths",
  "tests feed valid images and a few corruptions",
  ["hll/hll_sketch.go","kll/items_sketch.go","frequencies/longs_sketch.go","frequencies/items_sketch.go","sampling/reservoir_items_sketch.go","sampling/varopt_items_sketch_decoder.go","filters/bloom_filter.go","count/count_min_sketch.go","tdigest/double_decoder.go","tuple/decoder.go","cpc/cpc_sketch.go"],
  [("header validation","*/preamble_utils.go")])
p("C27","Hashing is Murmur3 and typed updates are canonical",
  "The library's hash of byte strings and 64-bit integer slices equals the reference MurmurHash3 x64 128 of their little-endian bytes with the same seed. Updates with the same number through different integer types, -0.0 and 0.0, all NaNs, or a string and its bytes hash alike where the API promises it.",
  ["inputs"],"every input up to the stated lengths, every seed",
  "tests compare a few vectors",
  ["internal/murmur3.go","theta/update_sketch.go"],[("Murmur3","internal/murmur3.go"),("canonical doubles","theta/update_sketch.go")])
p("C28","Confidence bounds bracket the estimate",
  "For theta and tuple sketches the lower bound is at most and the upper bound at least the estimate, in exact mode all equal the retained count, and the lower bound is never below the retained count (nor above the estimate).",
  IH,"arbitrary retained counts and thetas within bounds, 1 to 3 standard deviations",
  "tests check a few streams",
  ["internal/binomialbounds","theta/sketch.go"],[("binomial bounds","internal/binomialbounds")])
p("C29","Reset, copies and results are independent of their source",
  "Resetting a sketch gives one that behaves like a new sketch of the same configuration; compact forms, copies and results of set operations do not change when their source is updated afterwards, nor the source when they are.",
  IH,"arbitrary contents and subsequent updates within bounds",
  "tests rarely modify a source after taking a result",
  ["theta/update_sketch.go","theta/compact_sketch.go","hll/hll_sketch.go","kll/items_sketch.go","cpc/cpc_sketch.go","frequencies/longs_sketch.go"],[("deep copies","theta/compact_sketch.go")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
