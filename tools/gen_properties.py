#!/usr/bin/env python3
"""Writes properties.jsonl (single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})

W = "src/models/wisard/"; C = "src/models/cluswisard/"
HDR = "include/wisardpkg.hpp"

prop("C01", "RAM votes are exact counts of matching learned examples",
 "Whatever was learned before, classifying an input with a discriminator returns, for each RAM in mapping order, exactly the number of learned examples (unlearned ones taken away) that have the same values as the input at that RAM's positions; with ignoreZero on, a RAM whose positions are all 0 in the input votes 0. Two different value tuples never share a counter, for every base and every address size whose base^addressSize fits in 2^64, and a RAM that cannot be addressed in 2^64 is refused when it is created.",
 ["inputs", "histories", "configurations"],
 "all training histories and probes x all bases, address sizes up to the 64-bit limit, mappings, ignoreZero, completeAddressing, list and BinInput inputs",
 "The tests train at most nine fixed 9-bit examples with address size 2 or 3 and base 2, and compare votes only with those of a reloaded copy; counters above 5, wide addresses, other bases and ignoreZero are never reached.",
 [W+"ram.cc", W+"discriminator.cc", HDR],
 [("address = sum value*base^k over the RAM's positions; sparse counter per address", W+"ram.cc getIndex/train/getVote"), ("address-space limit", W+"ram.cc checkLimitAddressSize")],
 ["Discriminator.classify", "Discriminator.json"],
 [("positions", "address -> number of learned examples", W+"ram.cc"), ("addresses", "input positions read by the RAM", W+"ram.cc")])

prop("C02", "The input mapping is well formed, honours the configuration and is stable",
 "Without an explicit mapping every RAM reads addressSize in-range positions, and every input position is read: exactly once when addressSize divides the entry size, at least once with completeAddressing (ceil(entry/address) RAMs), at most once without it (floor(entry/address) RAMs). Explicit indexes are cut into consecutive groups of addressSize, and an explicit mapping is used literally (per class for Wisard); an indexes or mapping entry outside the input is refused. The mapping of a discriminator never changes afterwards, whatever is trained, classified, saved or reloaded.",
 ["inputs", "configurations", "histories"],
 "all entry sizes, address sizes, completeAddressing, indexes and mappings, RNG seeds, model kinds, and operations after construction",
 "The mapping tests compare one fixed explicit mapping; random mappings, indexes, padding and stability under training, unlearning and reload are not looked at.",
 [W+"discriminator.cc", W+"wisard.cc", C+"cluster.cc", C+"cluswisard.cc", "src/wrappers/", HDR],
 [("shuffle with padding", W+"discriminator.cc setRAMShuffle"), ("indexes / mapping", W+"discriminator.cc setRAMByIndex, setRAMByMapping"), ("per class choice", W+"wisard.cc makeDiscriminator")],
 ["json/jsonConfig 'mapping'", "votes per RAM"])

prop("C03", "Wisard predicts the class selected by the bleaching rule",
 "Wisard.classify returns, for each input and in input order, the learned class with the highest score, where the score of a class is its number of RAMs voting at least b. With bleaching, b is the smallest threshold >= 1 at which the best score exceeds the runner-up's by at least the configured confidence or is at most 1; without bleaching, or with a single learned class, b is 1; equal best scores go to the label that is last in byte order. The result does not depend on the names of the classes otherwise, nor on the order in which they were learned.",
 ["inputs", "histories", "configurations"],
 "all trained states (number of classes, vote matrices), probes, confidence values, bleaching on/off",
 "The tests check the predicted labels of one tiny two-class data set where the answer is unambiguous at the first threshold; bleaching beyond 1, confidence > 1, ties, many classes are never exercised.",
 ["src/common/bleaching.cc", W+"wisard.cc", "src/wrappers/wisardwrapper.cc", HDR],
 [("threshold search", "src/common/bleaching.cc makeConfidenceless, isThereAmbiguity"), ("choice of the winner", "src/common/bleaching.cc getBiggestCandidate")],
 ["Wisard.classify"])

prop("C04", "Reported degrees are exact and reporting options change nothing else",
 "When requested, activationDegree is the winner's score divided by the number of RAMs of its discriminator (so always in [0,1]); confidence is (best - next lower score)/best, a number in [0,1], and 0 when the best score is 0; classesDegrees lists every candidate in label order with its score's share of the total (all 0 if the total is 0). Each returned entry contains exactly the requested fields, or is the plain label when none is requested, and the reporting options and verbose never change the predicted class, the order of results or the learned state; nothing is printed unless verbose is on.",
 ["inputs", "configurations", "histories"],
 "all trained Wisard and ClusWisard states x all combinations of the reporting flags, verbose, mapping kinds, list and DataSet input",
 "No test turns any of these options on.",
 ["src/wrappers/wisardwrapper.cc", "src/wrappers/cluswisardwrapper.cc", "src/common/bleaching.cc"],
 [("result entries", "src/wrappers/*wrapper.cc pyClassify, setClassifyOutput, getClassesDegrees"), ("confidence value", "src/common/bleaching.cc getConfidence")],
 ["Wisard.classify", "ClusWisard.classify", "stdout"])

prop("C05", "Mental images count the learned examples per input position",
 "The mental image of a class (of each discriminator for ClusWisard) has one value per input position: the number of learned examples, unlearned ones taken away, whose value at that position is not 0, multiplied by the number of times the mapping reads that position. This holds for every base, address size up to the 64-bit limit, mapping and history.",
 ["inputs", "histories", "configurations"],
 "all training/unlearning/reload histories x base, address size, mapping, completeAddressing, ignoreZero, Wisard, ClusWisard and Discriminator",
 "One test compares two fixed images with address size 3 where each position is read exactly once; wide addresses, other bases, padding and unlearning are not reached.",
 [W+"ram.cc", W+"discriminator.cc", W+"wisard.cc", C+"cluster.cc", HDR],
 [("address decoding", W+"ram.cc getMentalImage, convertToBase"), ("accumulation", W+"discriminator.cc getMentalImage")],
 ["Wisard.getMentalImages", "ClusWisard.getMentalImage(s)", "Discriminator::getMentalImage"])

prop("C06", "Unlearning exactly undoes learning",
 "Unlearning examples that were learned before (leaveOneOut, leaveMoreOut, untrain), in any order and interleaved with other operations, leaves votes, predictions, mental images and training counts exactly as if those examples had never been learned. A class whose examples were all unlearned stays a known class without learned content, and unlearning from a label that was never learned changes nothing and creates no class.",
 ["histories", "inputs"],
 "all interleavings of learn, unlearn, classify, save and reload over several classes",
 "No test calls leaveOneOut or leaveMoreOut at all.",
 [W+"ram.cc", W+"discriminator.cc", W+"wisard.cc", HDR],
 [("counter decrement", W+"ram.cc untrain"), ("example count", W+"discriminator.cc untrain")],
 ["Wisard.leaveOneOut/leaveMoreOut", "votes", "json 'count'", "getMentalImages"])

prop("C07", "Learning is independent of order, batching and input representation",
 "With a fixed mapping, the state reached by a Wisard or Discriminator depends only on the multiset of (example, label) pairs learned: splitting into batches, permuting examples, interleaving classes or classification calls, and passing the data as lists or as DataSet/BinInput all give the same votes, predictions, degrees and mental images. The result is also the same in any process, at any time of day and for any state of the C random generator, and other models being created or trained in between make no difference.",
 ["histories", "inputs", "configurations"],
 "all permutations, batch splits and representations of a training multiset, with foreign models and clock changes interleaved",
 "Tests train one batch once, as lists only; DataSet training and classification are never tested.",
 [W+"wisard.cc", W+"discriminator.cc", W+"ram.cc", "src/data/bininput.cc", "src/data/dataset.cc", "src/wrappers/wisardwrapper.cc", HDR],
 [("one counter increment per RAM and example", W+"ram.cc train"), ("templates over list / BinInput", W+"wisard.cc train, _classify")],
 ["votes", "Wisard.classify on list and DataSet", "getMentalImages"])

prop("C08", "Saving Wisard/Discriminator to JSON and loading it back loses nothing",
 "A Wisard or Discriminator rebuilt from json() has the same configuration, classes, mapping, counters and training counts as the original, trained or not, and from then on behaves exactly like it for classification, mental images, further learning (of old and new classes), unlearning and further saving, over any number of save/load generations. The text is valid JSON that carries the package version, and producing it does not change the model.",
 ["histories", "inputs", "configurations"],
 "all configurations, labels and training states, and all continuations applied to both copies after the reload",
 "The tests reload one small trained model and compare the classification of the training data only; untrained models, options, explicit mappings of classes not seen yet and further learning after the reload are not covered.",
 [W+"wisard.cc", W+"discriminator.cc", W+"ram.cc", W+"ramdatahandle.cc", "src/common/utils.cc", HDR],
 [("serialisation", W+"wisard.cc getConfig/getClassesJSON, "+W+"discriminator.cc getConfig/getRAMsData"), ("loading", W+"wisard.cc Wisard(string), "+W+"discriminator.cc setRAMsData, "+W+"ram.cc RAM(json)")],
 ["json", "constructors from string", "all behaviour after reload"])

prop("C09", "File-backed saves are complete and never overwrite one another",
 "json(True, prefix) writes the learned content to new files whose names start with prefix and returns a JSON that, as long as the files exist, reloads exactly the state at the time of that call. Files of different calls, models, classes or discriminators never collide or get mixed up, even for saves within the same second, from equal RNG states, or in several processes one after the other; no existing file is modified.",
 ["histories", "configurations", "inputs"],
 "all sequences of saves of several Wisard, ClusWisard and Discriminator models at arbitrary (also equal) clock values to equal or different prefixes, interleaved with training",
 "No test uses the file-backed form.",
 [W+"discriminator.cc", W+"wisard.cc", C+"cluster.cc", C+"cluswisard.cc", "src/common/utils.cc", HDR],
 [("file naming and writing", W+"discriminator.cc getRAMsData"), ("file reading", W+"discriminator.cc setRAMsData"), ("random suffix", "src/common/utils.cc getRandomString")],
 ["files under the prefix", "reload from the returned JSON"])

prop("C10", "jsonConfig carries the configuration and loads as an untrained model",
 "jsonConfig() contains the full configuration (and for Wisard/Discriminator the classes and mappings) without learned content, and a model built from it has the same options and mappings and votes 0 everywhere. Trained afterwards, it behaves exactly like a fresh model with that configuration and those mappings; every documented constructor option given is reflected in jsonConfig().",
 ["configurations", "histories"],
 "all option combinations of Wisard, ClusWisard and Discriminator, before and after training",
 "No test calls jsonConfig.",
 [W+"wisard.cc", W+"discriminator.cc", C+"cluswisard.cc", "src/wrappers/", HDR],
 [("configuration dump", "getConfig / jsonConfig of each model"), ("option parsing", "constructors and src/wrappers/*")],
 ["jsonConfig", "constructors from string"])

prop("C11", "ClusWisard grows its discriminators by the score and threshold rule",
 "Learning an example in a cluster (a label, or the unsupervised cluster) trains every discriminator whose score, mean vote over maximum vote, is at least min(1, minScore + count/threshold); if there is none a new discriminator is created for it while there are fewer than the limit, otherwise the best scoring one (the most recent of equals) learns it. The number of discriminators never exceeds the limit, every example is learned by at least one discriminator, and nothing learned is ever dropped by later supervised or unsupervised training, whatever their order.",
 ["inputs", "histories", "configurations"],
 "all sequences of supervised and unsupervised training calls x minScore, threshold, limit, address size, base, ignoreZero, completeAddressing",
 "The tests only check that training does not raise, and the predicted labels of five fixed examples.",
 [C+"cluster.cc", C+"cluswisard.cc", HDR],
 [("training rule", C+"cluster.cc train, getScore"), ("cluster creation", C+"cluswisard.cc makeClusters, trainUnsupervised")],
 ["ClusWisard.json: discriminators, counts, mapping, data"])

prop("C12", "Semi-supervised training uses exactly the examples it was given",
 "ClusWisard.train with a partial labelling first learns every labelled example under its label, in input order, and then, in input order, each remaining example exactly once, under the class the model predicts for it at that moment. Label indexes outside the data are ignored; more labels than examples, or data without any labelled example, are rejected, and empty data without labels changes nothing.",
 ["inputs", "histories", "configurations"],
 "all data sets, all partial labellings (including indexes outside the data), model states and configurations",
 "One test runs a single labelling of five examples and only looks at the labelled ones afterwards.",
 [C+"cluswisard.cc", "src/wisard_bind.cc", HDR],
 [("split into labelled and unlabelled", C+"cluswisard.cc train(images, map)")],
 ["ClusWisard.json", "ClusWisard.classify"])

prop("C13", "ClusWisard predictions follow from its discriminators and keep class names",
 "ClusWisard.classify applies the bleaching rule to the votes of all discriminators of all clusters and returns the full, unaltered label of the cluster owning the winning discriminator, for any label text; classifyUnsupervised does the same, always with confidence 1, with the discriminators of the unsupervised cluster and returns the winner's number as decimal text (equal scores go to the text that is last in byte order). getMentalImages has exactly the learned labels, each with one image per discriminator.",
 ["inputs", "histories", "configurations"],
 "all trained states, label texts, numbers of discriminators, confidence and bleaching settings",
 "Tests use two short labels, five examples, at most a few discriminators.",
 [C+"cluswisard.cc", C+"cluster.cc", "src/wrappers/cluswisardwrapper.cc", "src/common/bleaching.cc", HDR],
 [("votes per discriminator and label extraction", C+"cluswisard.cc classify, classifyUnsupervised; src/wrappers/cluswisardwrapper.cc pyClassify")],
 ["ClusWisard.classify", "ClusWisard.classifyUnsupervised", "getMentalImages"])

prop("C14", "Saving ClusWisard to JSON and loading it back loses nothing",
 "A ClusWisard rebuilt from json() has the same configuration, supervised clusters and unsupervised cluster, with every discriminator's mapping, counters and training count, as the original; from then on it classifies, grows, unlearns nothing, and saves exactly like the original, over any number of save/load generations.",
 ["histories", "inputs", "configurations"],
 "all configurations, labels, training states (none, supervised, unsupervised, mixed) and continuations after the reload",
 "The tests compare the classification of five training examples after one reload.",
 [C+"cluswisard.cc", C+"cluster.cc", W+"discriminator.cc", HDR],
 [("serialisation", C+"cluswisard.cc json, getConfig; "+C+"cluster.cc getJson"), ("loading", C+"cluswisard.cc ClusWisard(string), "+C+"cluster.cc Cluster(json)")],
 ["json", "constructor from string", "all behaviour after reload"])

prop("C15", "BinInput is an exact, bounded bit vector with lossless text form",
 "A BinInput of n bits (any n, not only multiples of 8) reports size n, reads 0 until set, and get(i) returns the value last set at i: set changes only that bit, and a position outside 0..n-1 or a value other than 0 and 1 is refused without changing anything. BinInput(x.data()) equals x bit for bit and in size.",
 ["inputs", "histories"],
 "all sizes, bit patterns and sequences of set/get/serialise operations",
 "BinInput has no test at all.",
 ["src/data/bininput.cc", "src/common/utils.cc", HDR],
 [("bit packing and padding count", "src/data/bininput.cc")],
 ["BinInput get/set/size/data/[]"])

prop("C16", "DataSet keeps examples and labels in order and survives its file",
 "A DataSet returns the examples and labels in the order added, labels only where one was given (an empty label counts as none), and any access outside it raises. save(prefix) writes prefix.wpkds so that loading it gives an equal data set (sizes, bits, labels, absence of labels) for any number of examples including none and any label text, replaces an earlier file of that name, and changes nothing in the data set saved.",
 ["inputs", "histories", "configurations"],
 "all sequences of add/get/getLabel/save/load, all sizes and label texts",
 "DataSet has no test at all.",
 ["src/data/dataset.cc", "src/data/bininput.cc", "src/common/utils.cc", HDR],
 [("storage", "src/data/dataset.cc add/get/getLabel"), ("file format", "src/data/dataset.cc save, DataSet(filename)")],
 ["DataSet API", "the .wpkds file"])

prop("C17", "RAMDataHandle reads and edits saved RAM content faithfully",
 "A RAMDataHandle built from the content of a saved discriminator gives for each RAM exactly the stored address/counter pairs; get never changes anything, set changes exactly the named counter, and data() (whole or one RAM) yields text from which an equal handle - or a discriminator with exactly the edited counters - can be built, whether the text is given directly or in a data file. compare is true if and only if both handles hold the same RAMs with the same contents.",
 ["inputs", "histories"],
 "all RAM contents (empty RAMs, 64-bit addresses, any 32-bit value), all sequences of get/set/data/compare/reload",
 "RAMDataHandle has no test at all.",
 [W+"ramdatahandle.cc", "src/common/utils.cc", HDR],
 [("block format", W+"ramdatahandle.cc data, dataToRam"), ("splitting of RAMs", W+"ramdatahandle.cc setData")],
 ["RAMDataHandle API"])

prop("C18", "Base64 text is standard and lossless",
 "Every byte string encodes to standard padded Base64 (RFC 4648 alphabet) and decodes back to exactly the same bytes, for every length including 0; text whose length is not a multiple of 4 is refused, and text with characters outside the alphabet may be refused. All persisted data of the library (RAM contents, BinInput, DataSet files) is therefore readable and writable by any standard Base64 implementation.",
 ["inputs"],
 "all byte strings of all lengths and byte values",
 "test.cc round-trips a single ASCII string without asserting the result.",
 ["src/common/utils.cc", HDR],
 [("encode/decode", "src/common/utils.cc Base64")],
 ["Base64::encode/decode", "BinInput.data", "RAMDataHandle.data", "Discriminator.json"])

prop("C19", "KernelCanvas maps a sequence to the nearest kernels of its points",
 "transform returns numberOfKernels*bitsByKernel values, all 0 or 1, where the bits of one kernel are equal; a kernel is on if and only if it is among the round(activationDegree*numberOfKernels) nearest ones (Euclidean, after tanh of the per-dimension standardised value (mean - value)/population standard deviation) of at least one point of the sequence (for sequences whose every dimension varies, and without useDirection). The result is a function of the canvas and the sequence only: repeating the call and using other canvases make no difference, and without direction, up to rounding, neither do the order or repetition of the points or a rescaling or shift of a dimension.",
 ["inputs", "histories", "configurations"],
 "all sequences, dimensions, kernel counts, bitsByKernel, activationDegree, useDirection",
 "One test checks that 40 output values of one sequence are 0 or 1; useDirection is never transformed.",
 ["src/binarization/kernelcanvas.cc", "src/wrappers/kernelcanvaswrapper.cc", HDR],
 [("standardisation, distances, activation", "src/binarization/kernelcanvas.cc transform, calculatePoint, calculateDistances, activateKernels")],
 ["KernelCanvas.transform"],
 [("kernels", "random points in [-1,1]^dim", "src/binarization/kernelcanvas.cc")])

prop("C20", "Synthesizer samples follow the mental image",
 "make() returns one 0/1 value per position of the mental image; positions with value 0 are never set, positions with the maximum value are always set, and over repeated calls each position is set with frequency value/maximum, independently of how fast the calls follow each other. A mental image without any positive value gives all zeros.",
 ["inputs", "histories"],
 "all mental images with non-negative values and all sequences of make() calls, at any clock speed",
 "Synthesizer has no test at all.",
 ["src/synthetic_data/synthesizers.cc", "src/common/utils.cc", HDR],
 [("cube of layers and random layer choice", "src/synthetic_data/synthesizers.cc")],
 ["Synthesizer.make"])

prop("C21", "Valid use is free of memory errors and undefined behaviour",
 "No sequence of API calls with valid arguments, on any of the exported classes, in Python or C++, reads or writes memory outside live objects, uses uninitialised values, invokes undefined behaviour, crashes or hangs. This holds for every configuration, including direction-sensitive kernel canvases, empty batches, untrained models and models reloaded from their own saves.",
 ["histories", "inputs", "configurations"],
 "all valid API call sequences over all exported classes",
 "The tests run without instrumentation on a handful of calls; silent overflows and uninitialised reads pass unnoticed.",
 ["src/", HDR],
 [("index arithmetic and container use", "all of src/"), ("bounds of mapping positions", W+"ram.cc, "+W+"discriminator.cc")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions, memcheck"])

prop("C22", "Invalid arguments are refused and leave the object as it was",
 "Inputs of the wrong length, values outside 0..base-1 at positions the mapping reads, different numbers of examples and labels, impossible configurations (base, address or entry size; a confidence larger than the number of RAMs; minScore, threshold, limit; kernel parameters), lists of indexes that are incomplete or repeat a position, indexes or mapping entries outside the input, and out-of-range accesses to a BinInput or DataSet raise an exception at the latest at first use and never crash or hang. A refused example leaves no trace: the model afterwards is exactly the one that learned only the examples preceding it in the call (an empty batch is no error and changes nothing), without new classes, clusters or discriminators, and stays fully usable.",
 ["inputs", "histories", "configurations"],
 "all kinds of invalid argument at every position of every call, on models in any state",
 "No test passes an invalid argument.",
 [W+"discriminator.cc", W+"ram.cc", W+"wisard.cc", C+"cluster.cc", C+"cluswisard.cc", "src/data/", "src/binarization/kernelcanvas.cc", "src/common/utils.cc", HDR],
 [("argument checks", "check* functions of each class"), ("validation before mutation", W+"discriminator.cc train, untrain")],
 ["exceptions", "json before/after", "process status"])

prop("C23", "Loading arbitrary or damaged saved data is memory safe",
 "Building a Wisard, ClusWisard, Discriminator, RAMDataHandle, BinInput or DataSet from any text or file - truncated, corrupted or hostile - either raises an exception or gives an object on which every operation is memory safe and ends (with a result or an exception).",
 ["inputs", "fault_sequences"],
 "all byte strings, in particular all corruptions of genuine saves, followed by any use of the loaded object",
 "The tests only load what the library just wrote.",
 [W+"discriminator.cc", W+"ram.cc", W+"ramdatahandle.cc", W+"wisard.cc", C+"cluswisard.cc", C+"cluster.cc", "src/data/bininput.cc", "src/data/dataset.cc", "src/common/utils.cc", HDR],
 [("validation while loading", "constructors from string / json"), ("Base64 decoding", "src/common/utils.cc")],
 ["sanitizer reports", "process status"])

prop("C24", "Read operations change nothing and may run concurrently",
 "classify, classifyUnsupervised, transform, json, jsonConfig, getMentalImage(s), getsizeof, get, size and data have no observable effect on the object: interleaving them in any number anywhere in a history changes no later result. In C++ any number of threads may run them at the same time on one object, and different objects may be trained, saved and loaded in different threads, without data races and with the same results as sequentially.",
 ["schedules", "histories", "inputs"],
 "all interleavings of read operations in one history, and all schedules of concurrent readers on shared objects and of writers on distinct objects",
 "All tests are single-threaded and call each read operation once.",
 ["src/models/", "src/data/", "src/binarization/kernelcanvas.cc", "src/common/utils.cc", HDR],
 [("no writes in read paths", "classify/get*/json of each class"), ("constant lookup tables", "src/common/utils.cc Base64")],
 ["ThreadSanitizer", "state comparison before/after"])

prop("C25", "Copies are independent values and nothing is leaked",
 "In C++ a copied or assigned Wisard, ClusWisard, Discriminator, DataSet, BinInput or RAMDataHandle behaves like the original at that moment, and afterwards operations on one never affect the other, in whichever order they are destroyed. Destroying objects returns all memory they obtained, and repeating any create/train/classify/save/load/destroy cycle does not make the process grow.",
 ["histories", "configurations"],
 "all histories with copies, assignments and destructions at arbitrary points; any number of repetitions of a cycle",
 "No test copies an object or measures memory.",
 [C+"cluster.cc", C+"cluswisard.cc", W+"wisard.cc", W+"discriminator.cc", "src/data/", HDR],
 [("ownership of discriminators", C+"cluster.cc"), ("implicit copy members", "all classes")],
 ["copy then diverge", "heap bytes in use per cycle"])

prop("C26", "File operations that cannot be completed are reported",
 "If a save to a file cannot be completed (missing directory, not a directory, file size limit, full device) the call raises instead of returning normally, and the object in memory is unchanged and can be saved again elsewhere. Loading a model whose data file is missing or holds fewer RAMs than its mapping, or a DataSet or RAMDataHandle from a file that does not exist, raises instead of returning an emptied object.",
 ["fault_sequences", "crash_points", "histories"],
 "all points at which a file can fail to be opened, written or read, for every file-backed operation",
 "No test touches files.",
 [W+"discriminator.cc", W+"ramdatahandle.cc", "src/data/dataset.cc", HDR],
 [("stream checks", W+"discriminator.cc getRAMsData, setRAMsData; src/data/dataset.cc; "+W+"ramdatahandle.cc")],
 ["exceptions under injected I/O faults"])

prop("C27", "The C++ header and the Python module behave identically",
 "The committed single-file C++ library behaves like the sources the Python module is built from: for the same calls and the same mapping both give the same votes, predictions, mental images, transforms, configuration and errors. Models, data sets and RAM contents saved by either one load in the other with identical behaviour.",
 ["programs", "histories", "inputs", "configurations"],
 "all call sequences available in both, and all saves exchanged between them in both directions",
 "cpptest and cpptest_gen run one program without looking at its output; nothing compares the header with the module.",
 [HDR, "src/", "generate_include.py", "src/wrappers/"],
 [("header generation", "generate_include.py"), ("wrappers", "src/wrappers/*, src/wisard_bind.cc")],
 ["results of identical call sequences in both builds"])

prop("C28", "Random mappings and kernels are fair draws",
 "Unless indexes or a mapping are given, the mapping of every Discriminator, Wisard class and ClusWisard discriminator is a fair random draw: over models created at different times every RAM slot reads every position of the input equally often (and neighbouring slots every pair of positions), the positions that complete the last RAM are drawn from the whole input, and the mappings of different classes and discriminators of one model are drawn independently of each other. The kernels of a KernelCanvas are spread evenly over [-1,1] in every dimension, independently of each other.",
 ["inputs", "configurations"],
 "all sequences of clock values and states of the C random generator at which models are created, all shapes, all ways of creating a discriminator (constructor, first training of a class, growth, reloaded configuration)",
 "A unit test sees a few draws; that a draw is fair is a statement about the distribution over all of them.",
 [W+"discriminator.cc", W+"wisard.cc", C+"cluster.cc", "src/binarization/kernelcanvas.cc", "src/common/utils.cc", HDR],
 [("shuffling of indexes and padding", W+"discriminator.cc generateIndexes, setRAMShuffle"), ("randint, randdouble", "src/common/utils.cc"), ("kernel generation", "src/binarization/kernelcanvas.cc setupKernelCanvas")],
 ["mapping in json/jsonConfig over many models", "kernels over many canvases"])

prop("C29", "The reported size follows the learned content",
 "getsizeof of a Discriminator, Wisard and ClusWisard is positive, grows by one fixed amount for every RAM address that is stored for the first time and by nothing else as long as no class or discriminator is created; neither classification nor repeated training of known addresses changes it. Copies and reloaded models report the size of the original, and a model reports at least the sum of its discriminators.",
 ["histories", "inputs", "configurations"],
 "all histories of training, unlearning, classification and reloading",
 "The tests call getsizeof once and compare it with nothing.",
 [W+"ram.cc", W+"discriminator.cc", W+"wisard.cc", C+"cluster.cc", C+"cluswisard.cc", HDR],
 [("size accounting", "getsizeof of each class")],
 ["getsizeof before and after every operation", "number of stored addresses in json"])

prop("C30", "Arguments and results are never shared with the objects",
 "Every call leaves its arguments (lists, label maps, data sets, bit vectors, options) as they were, whether it returns or raises, and keeps no connection to them or to what it returned: changing or destroying an argument afterwards, or changing a returned value, changes nothing in any object.",
 ["histories", "inputs", "programs"],
 "all call sequences in which arguments and results are changed, reused or destroyed between calls",
 "The tests never look at an argument or reuse it after a call.",
 ["src/models/", "src/data/", "src/binarization/", "src/wrappers/", HDR],
 [("parameters taken by reference", "train, classify, set, add of each class"), ("returned containers", "getMentalImage(s), get, data")],
 ["arguments before/after each call", "the same program with and without altered arguments and results"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
