#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one property per entry)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

I = "inputs"; H = "histories"; C = "configurations"; F = "fault_sequences"

prop("C01", "Each RAM separates images exactly by the positions it addresses",
 "After training a discriminator on one image, the vote of each RAM for any other valid image is 1 exactly when both images agree on every position mapped to that RAM, and 0 otherwise (0 too for the all-zero address when ignoreZero is on). This holds for every accepted base and address size, up to the full 64-bit address space; positions not mapped to the RAM never influence its vote.",
 [I, C], "every pair of valid images, every base and every address size whose base^addressSize fits in 2^64, every position-to-RAM mapping",
 "The tests only use base 2 with address sizes 2, 3 and 20, on a handful of images; collisions between addresses need particular digits or wide addresses.",
 ["src/models/wisard/ram.cc", "src/models/wisard/discriminator.cc"],
 [("address computation", "RAM::getIndex"), ("vote lookup", "RAM::getVote"), ("address-space limit", "RAM::checkLimitAddressSize")],
 ["Discriminator::train", "Discriminator::classify"])

prop("C02", "A RAM's vote is the number of matching trained images",
 "For any sequence of trainings, the vote of a RAM for an image equals the number of images trained so far that agree with it on the positions mapped to that RAM, with ignoreZero forcing 0 for the all-zero address. The training counter equals the number of images trained, and neither depends on the order of training nor on whether images arrive one by one, as a batch, or in packed form.",
 [I, H], "every sequence of valid training images and every probe image, for every mapping and ignoreZero setting",
 "The tests train a few fixed images once; repeated, interleaved and colliding addresses are a history-dependent matter.",
 ["src/models/wisard/ram.cc", "src/models/wisard/discriminator.cc"],
 [("counter update", "RAM::train"), ("batch training", "Discriminator::train"), ("lookup", "RAM::getVote")],
 ["Discriminator::train", "Discriminator::classify", "Discriminator::getNumberOfTrainings"])

prop("C03", "Leaving an image out exactly undoes its training",
 "Un-training (discriminator untrain, Wisard leaveOneOut and leaveMoreOut) images that were trained restores every vote, every mental image and the training counter to what they would be had those images never been trained, whatever was trained before or after. Leaving out under a label that was never trained changes nothing, and un-training under one label never touches another class.",
 [I, H], "every multiset of trained images, every sub-multiset left out, in any order, under any labels",
 "No test calls leaveOneOut, leaveMoreOut or untrain at all.",
 ["src/models/wisard/ram.cc", "src/models/wisard/discriminator.cc", "src/models/wisard/wisard.cc"],
 [("decrement", "RAM::untrain"), ("counter", "Discriminator::untrain"), ("label dispatch", "Wisard::leaveOneOut, Wisard::leaveMoreOut")],
 ["Discriminator::untrain", "Wisard::leaveOneOut", "Wisard::leaveMoreOut"])

prop("C04", "The random or given position mapping covers the entry as promised",
 "Every RAM of a discriminator addresses exactly addressSize positions, all inside the entry. With random addressing and completeAddressing every position of the entry is addressed and there are ceil(entrySize/addressSize) RAMs; without completeAddressing there are floor(entrySize/addressSize) RAMs and no position is addressed twice; an explicit list of indexes or an explicit mapping is used exactly as given, in order.",
 [I, C], "every outcome of the random generator, every entry size, address size, completeAddressing setting, index permutation and mapping",
 "Random draws are sampled once per test and the resulting mapping is only compared for one explicit mapping.",
 ["src/models/wisard/discriminator.cc", "src/common/utils.cc"],
 [("random mapping", "Discriminator::setRAMShuffle"), ("explicit indexes", "Discriminator::setRAMByIndex"), ("explicit mapping", "Discriminator::setRAMByMapping"), ("reported mapping", "Discriminator::getConfig")],
 ["Discriminator::json", "Discriminator::getNumberOfRAMS"])

prop("C05", "Invalid configurations are rejected, valid ones accepted",
 "Constructing a discriminator raises the library's exception exactly when the base is below 2, the address space base^addressSize exceeds 2^64, the address or entry size it is given is below 2, the address size exceeds the entry size (neither applies to an explicit mapping, whose RAMs may have any number of positions), an index list has the wrong length, a repeated index or an index outside the entry, or a mapping refers outside the entry; ClusWisard additionally requires minScore in [0,1], threshold >= 1 and discriminatorsLimit >= 1. Every other configuration is accepted, and no configuration causes an out-of-bounds access.",
 [C, I], "every integer value of the sizes, base, indexes and mapping entries, and every minScore, threshold and limit",
 "No test constructs an object with an invalid configuration.",
 ["src/models/wisard/discriminator.cc", "src/models/wisard/ram.cc", "src/models/cluswisard/cluswisard.cc"],
 [("size checks", "Discriminator::checkAddressSize, checkBase, checkListOfIndexes"), ("address space", "RAM::checkLimitAddressSize"), ("ClusWisard options", "ClusWisard::checkConfigInputs")],
 ["Discriminator constructors", "ClusWisard constructor"])

prop("C06", "Invalid training and classification data is rejected safely",
 "Training or classifying with an image whose size differs from the entry size, an image value outside 0..base-1, lists of images and labels of different length, or a confidence larger than the number of RAMs raises the library's exception; valid data never does. Empty batches are harmless, and no input of this kind causes an out-of-bounds access or a crash.",
 [I], "every image length and every integer image value, every batch and label list length including zero",
 "The tests only ever pass well-formed data.",
 ["src/models/wisard/ram.cc", "src/models/wisard/discriminator.cc", "src/models/wisard/wisard.cc", "src/models/cluswisard/cluswisard.cc"],
 [("value check", "RAM::checkPos"), ("entry size check", "Discriminator::checkEntrySize"), ("batch checks", "Wisard::checkInputSizes, Wisard::checkConfidence, ClusWisard::checkInputSizes")],
 ["Discriminator::train", "Discriminator::classify", "Wisard::train", "Wisard::classify", "ClusWisard::train"])

prop("C07", "Bleaching scores classes at the first unambiguous threshold",
 "With bleaching on, each class's score is the number of its RAMs whose vote is at least b, where b is the smallest threshold >= 1 at which either the best score leads the second best by at least the configured confidence or the best score is at most 1; with bleaching off, b is 1. The outcome does not depend on the order of the classes, and the computation always terminates.",
 [I], "every assignment of non-negative votes to the RAMs of every class, every confidence, bleaching on and off",
 "Tests see one confidence value and votes up to 5; ambiguity depends on the relative order of many vote values.",
 ["src/common/bleaching.cc"],
 [("threshold loop", "Bleaching::makeConfidenceless"), ("ambiguity", "Bleaching::isThereAmbiguity")],
 ["Bleaching::make", "Wisard::classify", "ClusWisard::classify"])

prop("C08", "Wisard classification returns the best-scoring trained class",
 "For every model and image, Wisard.classify returns one label per image, in input order, and each label is a trained class whose score (number of its RAMs passing the final bleaching threshold) no other class exceeds; ties go to the lexicographically greatest label. The result depends only on the multiset of trained (image, label) pairs and not on training order, batch split or on the other images being classified.",
 [I, H, C], "every training history over several classes, every label assignment, every probe image, bleaching and ignoreZero on or off",
 "Tests classify the very images they trained, on two well separated classes.",
 ["src/models/wisard/wisard.cc", "src/common/bleaching.cc", "src/models/wisard/discriminator.cc"],
 [("per-class votes", "Wisard::__classify"), ("winner", "Bleaching::getBiggestCandidate"), ("class creation", "Wisard::makeDiscriminator")],
 ["Wisard::train", "Wisard::classify"])

prop("C09", "A discriminator survives a JSON save and reload unchanged",
 "Loading a discriminator from its own json() output yields a discriminator with the same mapping, base, ignoreZero, training counter and RAM contents: it votes identically on every image, produces the same mental image, and behaves identically under further training. This holds for trained and untrained discriminators, for every 64-bit address and every counter value.",
 [I, H], "every training history (including none), every base, mapping and probe image, every cell address and counter value",
 "One reload of one small model is tested, on one probe image.",
 ["src/models/wisard/discriminator.cc", "src/models/wisard/ram.cc", "src/models/wisard/ramdatahandle.cc", "src/common/utils.cc"],
 [("writer", "Discriminator::json, RAM::getData"), ("reader", "Discriminator::setRAMsData, RAMDataHandle::dataToRam")],
 ["Discriminator::json", "Discriminator(std::string)"])

prop("C10", "A Wisard survives a JSON save and reload unchanged",
 "Loading a Wisard from its own json() output yields a model with the same classes and the same configuration (address size, bleaching, ignoreZero, completeAddressing, base, confidence, indexes, return options): it classifies every image identically, has the same mental images, and trains further in the same way, whatever the labels contain.",
 [I, H, C], "every training history, configuration, label text and probe image",
 "One default-configured model with two labels is reloaded, and only classified on its training images.",
 ["src/models/wisard/wisard.cc", "src/models/wisard/discriminator.cc"],
 [("writer", "Wisard::json, Wisard::getConfig, Wisard::getClassesJSON"), ("reader", "Wisard(std::string)")],
 ["Wisard::json", "Wisard(std::string)"])

prop("C11", "Base64 coding is standard and lossless",
 "Encoding any byte string gives exactly its RFC 4648 Base64 text with padding, and decoding that text gives back the original bytes, for every length including zero and every byte value.",
 [I], "every byte string",
 "One ASCII string is encoded and decoded, and the output is never compared.",
 ["src/common/utils.cc"],
 [("encoder", "Base64::encode"), ("decoder", "Base64::decode")],
 ["Base64::encode", "Base64::decode", "RAMDataHandle", "BinInput::data"])

prop("C12", "BinInput is a faithful fixed-size bit array",
 "A BinInput built from a list of zeros and ones reports that size and returns exactly those bits; setting one bit changes only that bit; indexes at or past the size are rejected with the library's exception; and rebuilding a BinInput from its data() text gives back the same size and bits, for every size.",
 [I, H], "every size, every bit pattern, every sequence of set operations and every index",
 "No test touches BinInput.",
 ["src/data/bininput.cc"],
 [("bit access", "BinInput::get, BinInput::set"), ("size", "BinInput::size, BinInput::setConfig"), ("text form", "BinInput::data, BinInput(const std::string&)")],
 ["BinInput"])

prop("C13", "A DataSet survives saving to and loading from a file",
 "Loading the file written by DataSet.save yields the same number of inputs in the same order, with the same bits and sizes, the same labels on labelled inputs, and no label on unlabelled ones - for every label text, for an empty data set, and when the same file name is saved again. Files with another extension are rejected.",
 [I, H], "every data set content, label text and sequence of saves",
 "No test touches DataSet.",
 ["src/data/dataset.cc", "src/data/bininput.cc", "src/common/utils.cc"],
 [("writer", "DataSet::save"), ("reader", "DataSet(std::string)")],
 ["DataSet::save", "DataSet(std::string)", "DataSet::getLabel"])

prop("C14", "RAMDataHandle reads, edits and rewrites RAM contents exactly",
 "A RAMDataHandle built from saved RAM data holds exactly the saved cells of each RAM; set changes only the named cell, get returns the last value set or loaded (0 when absent) without altering the handle, data() gives text that loads back to an equal handle, and compare is true exactly when all RAMs hold the same cells.",
 [I, H], "every RAM content (any 64-bit address and 32-bit value), every number of RAMs and every sequence of get and set operations",
 "No test touches RAMDataHandle.",
 ["src/models/wisard/ramdatahandle.cc", "src/common/utils.cc"],
 [("cell access", "RAMDataHandle::get, RAMDataHandle::set"), ("text form", "RAMDataHandle::data, RAMDataHandle::setData, RAMDataHandle::dataToRam"), ("equality", "RAMDataHandle::compare")],
 ["RAMDataHandle"])

prop("C15", "Malformed serialized data never corrupts memory",
 "Decoding or loading any text whatsoever - as Base64, as BinInput data, or as RAM data - either raises an exception or yields an object whose every documented operation stays within its own storage; it never reads or writes out of bounds.",
 [I], "every text up to the stated length, well formed or not",
 "No test loads malformed text.",
 ["src/common/utils.cc", "src/data/bininput.cc", "src/models/wisard/ramdatahandle.cc"],
 [("decoder", "Base64::decode"), ("BinInput from text", "BinInput(const std::string&)"), ("RAM data from text", "RAMDataHandle::setData")],
 ["Base64::decode", "BinInput(std::string)", "RAMDataHandle(std::string)"])

prop("C16", "Mental images count how often each position was seen active",
 "The mental image of a class has one value per entry position: the sum, over every RAM connection to that position, of the trained images that had a non-zero value there, images whose whole RAM address is zero contributing nothing. It holds for every base and every address size, and for ClusWisard there is one such image per discriminator of each class.",
 [I, H, C], "every training history, mapping, base and address size up to the 64-bit address space",
 "One fixed binary example with address size 3 is tested.",
 ["src/models/wisard/ram.cc", "src/models/wisard/discriminator.cc", "src/models/wisard/wisard.cc", "src/models/cluswisard/cluswisard.cc"],
 [("address decoding", "RAM::convertToBase, RAM::getMentalImage"), ("accumulation", "Discriminator::getMentalImage")],
 ["Discriminator::getMentalImage", "Wisard::getMentalImages", "ClusWisard::getMentalImages"])

prop("C17", "Synthesized data follows the mental image",
 "Every output of a Synthesizer has one value, 0 or 1, per position of the mental image; a position of intensity 0 is never set, a position of maximal positive intensity always is, and over the equally likely draws a position is set in exactly intensity out of max-intensity of them. An all-zero mental image yields all zeros.",
 [I], "every non-negative mental image and every outcome of the random generator",
 "No test touches the Synthesizer.",
 ["src/synthetic_data/synthesizers.cc", "src/common/utils.cc"],
 [("table", "Synthesizer::makeCube"), ("draw", "Synthesizer::make, randint")],
 ["Synthesizer::make"])

prop("C18", "KernelCanvas output activates the promised number of whole kernels",
 "KernelCanvas.transform returns numberOfKernels*bitsByKernel values, all 0 or 1, with the bits of one kernel always equal; every point activates round(activationDegree*numberOfKernels) kernels, so between that number and that number times the number of points are active (none for an empty sequence). Sequences whose points have the wrong dimension and invalid settings are rejected with the library's exception, and no sequence causes an out-of-bounds access, with or without useDirection.",
 [I, C], "every sequence of points (any doubles), every kernel placement, dimension, kernel count and option setting",
 "One random sequence is transformed without direction and only checked to hold zeros and ones.",
 ["src/binarization/kernelcanvas.cc"],
 [("activation", "KernelCanvas::activateKernels"), ("distances", "KernelCanvas::calculateDistances"), ("points", "KernelCanvas::calculatePoint"), ("validation", "KernelCanvas::checkInputs, checkDimension")],
 ["KernelCanvas::transform"])

prop("C19", "ClusWisard clusters grow by the score rule and never past the limit",
 "Training an image under a label trains every discriminator of that class whose score is at least min(1, minScore + trainings/threshold), where the score is the mean vote divided by the largest vote (0 if no RAM votes); if there is none, a new discriminator is created while fewer than discriminatorsLimit exist, and otherwise the best scoring one (the latest on ties) is trained. Hence a class never has more than discriminatorsLimit discriminators and every trained image is learned by at least one.",
 [I, H, C], "every training history and every minScore, threshold and discriminatorsLimit",
 "Tests train five images once and only look at labels.",
 ["src/models/cluswisard/cluster.cc", "src/models/cluswisard/cluswisard.cc"],
 [("growth rule", "Cluster::train"), ("score", "Cluster::getScore")],
 ["ClusWisard::train", "ClusWisard::getMentalImages"])

prop("C20", "ClusWisard classification returns the class of the best discriminator",
 "ClusWisard.classify returns one label per image in input order, each exactly one of the trained labels, whatever characters the label contains: the class owning a discriminator with the highest score at the final bleaching threshold over all discriminators of all classes. Training under one label never alters the discriminators of another.",
 [I, H], "every training history, label text and probe image",
 "Tests use the labels cold and hot only, on images they trained.",
 ["src/models/cluswisard/cluswisard.cc", "src/models/cluswisard/cluster.cc", "src/common/bleaching.cc"],
 [("votes of all discriminators", "ClusWisard::classify"), ("label recovery", "ClusWisard::classify (label suffix)"), ("winner", "Bleaching::getBiggestCandidate")],
 ["ClusWisard::classify"])

prop("C21", "Semi-supervised training uses every image exactly once, in its role",
 "Semi-supervised training first trains every image that has a label under that label, in index order, and then trains every image without a label, and no other, under the class the model predicts for it at that moment. Label maps with more entries than images, or with no usable index, are rejected with the library's exception.",
 [I, H], "every set of images and every map from index to label, including indexes that name no image",
 "The single semi-supervised test checks only the labelled images.",
 ["src/models/cluswisard/cluswisard.cc"],
 [("split", "ClusWisard::train (label map)"), ("pseudo-label", "ClusWisard::train (image only)")],
 ["ClusWisard::train", "ClusWisard::classify"])

prop("C22", "Unsupervised training clusters consistently and accumulates",
 "Unsupervised training applies the cluster growth rule to the images in order with the model's own settings (including base, ignoreZero and completeAddressing), independently of any supervised classes, and successive calls continue from what was already learned. Unsupervised classification names, for each image, the index of a best scoring discriminator among at most discriminatorsLimit.",
 [I, H, C], "every sequence of unsupervised and supervised trainings and every configuration",
 "One call on five images is made and its output is never examined.",
 ["src/models/cluswisard/cluswisard.cc", "src/models/cluswisard/cluster.cc"],
 [("unsupervised cluster", "ClusWisard::trainUnsupervised"), ("classification", "ClusWisard::classifyUnsupervised")],
 ["ClusWisard::trainUnsupervised", "ClusWisard::classifyUnsupervised"])

prop("C23", "A ClusWisard survives a JSON save and reload unchanged",
 "Loading a ClusWisard from its own json() output yields a model with the same configuration, classes, discriminators and unsupervised cluster: it classifies every image identically (supervised and unsupervised), has the same mental images, and grows identically under further training - also with more than ten discriminators in a class.",
 [I, H, C], "every training history, configuration and probe image",
 "Two reloads are tested on the training images only; the reloaded model is never trained further.",
 ["src/models/cluswisard/cluswisard.cc", "src/models/cluswisard/cluster.cc"],
 [("writer", "ClusWisard::json, Cluster::getJson"), ("reader", "ClusWisard(std::string), Cluster(nl::json)")],
 ["ClusWisard::json", "ClusWisard(std::string)"])

prop("C24", "Reported degrees and confidence are consistent with the classification",
 "With the extended result options of the Python classes, each result carries the same class that plain classification returns; activationDegree is that class's score divided by the number of RAMs, confidence is (best score - next lower score)/best score and always within [0,1], and classesDegrees lists one degree per candidate (class or discriminator), in proportion to the scores and summing to 1 (all 0 when no RAM fired). Only the requested entries appear, and no value is ever NaN.",
 [I, H, C], "every model, probe image and combination of result options",
 "No test enables any of the extended result options.",
 ["src/wrappers/wisardwrapper.cc", "src/wrappers/cluswisardwrapper.cc", "src/common/bleaching.cc"],
 [("result assembly", "WisardWrapper::setClassifyOutput, ClusWisardWrapper::pyClassify"), ("confidence", "Bleaching::getConfidence"), ("degrees", "getClassesDegrees")],
 ["Wisard.classify", "ClusWisard.classify"])

prop("C25", "Queries never change a model",
 "Classifying, asking for mental images (also of labels never trained), sizes or JSON text leaves a Discriminator, Wisard or ClusWisard unchanged: every later classification, saved text and training outcome is the same as if the query had not been made.",
 [I, H], "every model, every query with every argument, and every later operation",
 "No test compares a model before and after a query.",
 ["src/models/wisard/wisard.cc", "src/models/cluswisard/cluswisard.cc", "src/models/wisard/discriminator.cc"],
 [("lookup without insertion", "Wisard::__classify, ClusWisard::getMentalImage, RAM::getVote")],
 ["Wisard::classify", "Wisard::getMentalImages", "ClusWisard::getMentalImage", "json", "getsizeof"])

prop("C26", "Packed and list inputs are interchangeable",
 "Training or classifying with a DataSet of BinInputs gives exactly the result of the same call with the corresponding lists of zeros and ones and labels, for Wisard and for a single Discriminator.",
 [I, H], "every data set content, every mix of packed and list calls and every probe",
 "No test uses DataSet or BinInput with a model.",
 ["src/models/wisard/wisard.cc", "src/models/wisard/discriminator.cc", "src/data/dataset.cc", "src/data/bininput.cc"],
 [("template training and voting", "Wisard::train, Wisard::_classify, RAM::getIndex")],
 ["Wisard::train(DataSet)", "Wisard::classify(DataSet)", "Discriminator::train(BinInput)"])

prop("C27", "jsonConfig text rebuilds the same architecture, untrained",
 "Loading the jsonConfig() text of a Discriminator, Wisard or ClusWisard yields a model with the same settings, and for Discriminator and Wisard the same classes and mappings, with no image learned: it votes 0 everywhere, reports zero trainings, and training it gives the same votes as training the original architecture from scratch.",
 [I, H, C], "every configuration, training history and probe image",
 "No test reloads a jsonConfig text.",
 ["src/models/wisard/discriminator.cc", "src/models/wisard/wisard.cc", "src/models/cluswisard/cluswisard.cc"],
 [("writer", "jsonConfig, Discriminator::getConfigJSON"), ("reader", "Discriminator(nl::json), Wisard(std::string)")],
 ["jsonConfig", "constructors from text"])

prop("C28", "File-backed saving is equivalent to inline saving",
 "A model saved with json(True, path) - RAM contents in files next to the JSON text - reloads to the same model as one saved with json(), for Discriminator, Wisard and ClusWisard.",
 [I, H], "every training history, label and probe image, while the files stay in place and file names do not collide",
 "No test saves in file-backed form.",
 ["src/models/wisard/discriminator.cc", "src/models/wisard/wisard.cc", "src/models/cluswisard/cluster.cc"],
 [("writer", "Discriminator::getRAMsData"), ("reader", "Discriminator::setRAMsData")],
 ["json(bool,string)", "constructors from text"])

prop("C29", "Options default as documented and take effect exactly as given",
 "Every option given to a constructor of Wisard, ClusWisard, Discriminator or KernelCanvas - in C++ as JSON options, in Python as a keyword, in any order and together with any others - takes exactly the given value, and every option not given has its documented default (bleachingActivated and completeAddressing on, ignoreZero, verbose and the return options off, base 2, confidence 1, no indexes, no mapping; 3 bits by kernel, activation degree 0.07, no direction). The C++ and the Python form of the same options make models that behave alike, and verbose changes no result.",
 [C, I], "every combination of documented options and values, every training and probe image",
 "The tests set one or two options at a time; a default or a crossed option shows only in particular combinations.",
 ["src/models/wisard/wisard.cc", "src/models/cluswisard/cluswisard.cc", "src/models/wisard/discriminator.cc", "src/binarization/kernelcanvas.cc", "src/wrappers/wisardwrapper.cc", "src/wrappers/cluswisardwrapper.cc", "src/wrappers/discriminatorwrapper.cc", "src/wrappers/kernelcanvaswrapper.cc"],
 [("C++ options", "Wisard(int, nl::json), ClusWisard(..., nl::json), Discriminator(int, int, nl::json), KernelCanvas(int, int, nl::json)"), ("Python keywords", "WisardWrapper, ClusWisardWrapper, DiscriminatorWrapper, KernelCanvasWrapper"), ("use", "Wisard::makeDiscriminator, Wisard::__classify")],
 ["constructors", "jsonConfig", "classify"])

prop("C30", "Separate models, data sets and copies never influence one another",
 "Training, un-training, querying, saving or destroying one Discriminator, Wisard or ClusWisard never changes what another one knows, whether the other was made apart, is a copy or an assigned copy of it, or was loaded from the same text; the same holds for copies of BinInput, DataSet and RAMDataHandle. Changing data after it was handed to a model or returned by one does not change the model.",
 [H, I], "every interleaving of operations on several models up to the bound, every image",
 "The tests use one model at a time and never copy one.",
 ["src/models/wisard/wisard.cc", "src/models/wisard/discriminator.cc", "src/models/cluswisard/cluswisard.cc", "src/models/cluswisard/cluster.cc", "src/data/bininput.cc", "src/data/dataset.cc", "src/models/wisard/ramdatahandle.cc"],
 [("state of a model", "Wisard::discriminators, ClusWisard::clusters"), ("copies of clusters", "Cluster(const Cluster&)"), ("copies of data", "BinInput, DataSet, RAMDataHandle")],
 ["copy construction and assignment", "train", "classify", "getMentalImages"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
