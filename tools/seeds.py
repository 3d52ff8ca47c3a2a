# Planted bugs: edits under src/ of the original code, a demonstration for each.
SEEDS = []
def S(id, property, edits, needs, breaks, demo=None, **k):
    d = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, **k)
    if demo is not None: d["demo"] = demo
    SEEDS.append(d)
RAM = "models/wisard/ram.cc"; DIS = "models/wisard/discriminator.cc"; WIS = "models/wisard/wisard.cc"; RDH = "models/wisard/ramdatahandle.cc"
CLU = "models/cluswisard/cluster.cc"; CW = "models/cluswisard/cluswisard.cc"; BL = "common/bleaching.cc"; UT = "common/utils.cc"; BI = "data/bininput.cc"; DS = "data/dataset.cc"
SY = "synthetic_data/synthesizers.cc"; KC = "binarization/kernelcanvas.cc"; PW = "wrappers/wisardwrapper.cc"; PC = "wrappers/cluswisardwrapper.cc"

S("C01-narrow-place-value", "C01", [(RAM, "    addr_t p = 1;\n", "    unsigned int p = 1;\n")], "a RAM of more than 32 binary positions (or an equally wide one in another base) and two images that differ only in the high positions",
  "the place value wraps at 2^32, so images differing only in high positions share a cell", '''
  VVI m(1); for (int i = 0; i < 40; i++) m[0].push_back(i); Discriminator d(m, 40); VI a(40, 0), b(40, 0); a[35] = 1; b[38] = 1; d.train(a); OK(d.classify(a)[0] == 1); OK(d.classify(b)[0] == 0);''')
S("C01-int-product", "C01", [(RAM, "      index += bin*p;\n", "      index += bin*(int)p;\n")], "an address position whose place value does not fit a signed int (base 2: position 31 gives a sign-extended term, positions above 31 vanish)",
  "terms of high positions are computed in int", '''
  VVI m(1); for (int i = 0; i < 34; i++) m[0].push_back(i); Discriminator d(m, 34); VI a(34, 0), b(34, 0); a[33] = 1; d.train(a); OK(d.classify(b)[0] == 0); OK(d.classify(a)[0] == 1);''')
S("C02-saturating-counter", "C02", [(RAM, "    else{\n      it->second++;\n    }\n", "    else if(it->second < 255){\n      it->second++;\n    }\n")], "the same RAM address trained more than 255 times",
  "the cell counter saturates at 255", '''
  Discriminator d(VVI{{0, 1}, {1, 2}}, 3); VI a{1, 0, 1}; for (int i = 0; i < 260; i++) d.train(a); OK(d.classify(a) == (VI{260, 260}));''')
S("C02-list-order", "C02", [(DIS, "      train(image[i]);\n", "      if(i == 0 || image[i] != image[i-1]) train(image[i]);\n")], "Discriminator::train on a list with two equal images next to each other",
  "equal neighbours in a list are trained once", '''
  Discriminator d(VVI{{0, 1}}, 2); d.train(VVI{{1, 0}, {1, 0}, {0, 1}}); OK(d.classify(VI{1, 0})[0] == 2); OK(d.getNumberOfTrainings() == 3);''')
S("C03-erase-at-one", "C03", [(RAM, "      if(it != positions.end()){\n        it->second--;\n      }\n", "      if(it != positions.end()){\n        it->second--;\n        if(it->second <= 1) positions.erase(it);\n      }\n")], "an image that shares a RAM address with exactly one other training is left out",
  "the cell is removed one step too early, so the other training is forgotten", '''
  Discriminator d(VVI{{0, 1}, {1, 2}}, 3); d.train(VI{1, 0, 1}); d.train(VI{1, 0, 0}); d.untrain(VI{1, 0, 1}); OK(d.classify(VI{1, 0, 0}) == (VI{1, 1}));''')
S("C03-leave-more-dup", "C03", [(WIS, "      leaveOneOut(images[i], labels[i]);\n", "      if(i > 0 && labels[i] == labels[i-1] && images[i] == images[i-1]) continue;\n      leaveOneOut(images[i], labels[i]);\n")], "leaveMoreOut called with the same image and label twice in a row",
  "the second of two equal images is not left out", '''
  Wisard w(2, nl::json{{"mapping", {{"a", {{0, 1}}}}}}); w.train(VVI{{1, 1}, {1, 1}, {0, 1}}, VS{"a", "a", "a"}); w.leaveMoreOut(VVI{{1, 1}, {1, 1}}, VS{"a", "a"}); OK(w.getMentalImages()["a"] == (VI{0, 1}));''')
S("C04-fill-range", "C04", [(DIS, "indexes[i] = randint(0, entrySize-1, false);", "indexes[i] = randint(0, entrySize, false);")], "completeAddressing with a remainder and a random number that draws the entry size itself",
  "a RAM can be connected to the position one past the entry", '''
  for (int k = 0; k < 400; k++) { srand(k); Discriminator d(4, 5, false, true, 2); std::vector<std::vector<int>> m = d.getConfigJSON()["mapping"]; for (auto& r : m) for (int x : r) OK(x >= 0 && x < 5); }''')
S("C04-short-last", "C04", [(DIS, "      indexesSize += addressSize-remain;\n    }\n\n    rams.resize(numberOfRAMS);", "      indexesSize += addressSize-remain;\n    }\n    if(remain > 0 && addressSize > remain*4) numberOfRAMS = entrySize / addressSize;\n\n    rams.resize(numberOfRAMS);")], "completeAddressing with a remainder smaller than a quarter of the address size",
  "the last RAM is not made, so positions stay unobserved although completeAddressing is on", '''
  Discriminator d(5, 6, false, true, 2); OK(d.getNumberOfRAMS() == 2);''')
S("C05-repeated-index", "C05", [(DIS, "        values[indexes[i]] = i;\n", "        if(indexes[i] > 0) values[indexes[i]] = i;\n")], "an index list in which 0 is repeated",
  "a list that repeats the index 0 is accepted", '''
  bool t = false; try { Discriminator d(VI{0, 1, 0, 2}, 2, 4); } catch (Exception&) { t = true; } OK(t); Discriminator e(VI{0, 1, 3, 2}, 2, 4); e.train(VI{1, 0, 1, 0});''')
S("C05-threshold-zero", "C05", [(CW, "    if(threshold < 1){\n", "    if(threshold < 1 && minScore < 1){\n")], "a ClusWisard with threshold 0 or below and minScore 1",
  "an invalid threshold is accepted when minScore is 1", '''
  bool t = false; try { ClusWisard c(2, 1.0f, 0, 3); } catch (Exception&) { t = true; } OK(t); ClusWisard c(2, 1.0f, 1, 3);''')
S("C06-size-first-only", "C06", [(DIS, "    checkEntrySize(image.size());\n    count++;\n", "    if(count == 0) checkEntrySize(image.size());\n    count++;\n")], "an image of another size trained after a correct one",
  "only the first trained image has its size checked, so a later longer image is taken", '''
  Discriminator d(VVI{{0, 1}}, 2); d.train(VI{1, 0}); bool t = false; try { d.train(VI{1, 0, 1}); } catch (Exception&) { t = true; } OK(t);''')
S("C06-negative-wrap", "C06", [(WIS, "    if(imageSize != labelsSize){\n", "    if(imageSize > labelsSize){\n")], "more labels than images given to train or leaveMoreOut",
  "a longer list of labels is accepted", '''
  Wisard w(2); bool t = false; try { w.train(VVI{{1, 0, 1}}, VS{"a", "b"}); } catch (Exception&) { t = true; } OK(t);''')
S("C07-skip-threshold", "C07", [(BL, "      bleaching++;\n", "      bleaching += bleaching < 3 ? 1 : 2;\n")], "votes whose tie is settled at an even threshold of 4 or more",
  "some bleaching thresholds are skipped", '''
  std::map<std::string, VI> v{{"a", {4, 4, 4, 9}}, {"b", {4, 4, 3, 9}}}; v["a"] = {4, 3, 9, 4}; v["b"] = {3, 3, 9, 9}; 
  std::map<std::string, VI> x{{"a", {4, 5}}, {"b", {3, 5}}}; auto r = Bleaching::make(x, true); OK(r["a"] == 2 && r["b"] == 1);''')
S("C07-inactive-two", "C07", [(BL, "          if(i->second[j] >= bleaching){\n            labels[i->first]++;", "          if(i->second[j] >= bleaching && i->second[j] < 1000000000){\n            labels[i->first]++;")], "a RAM counter of a billion or more (for example from loaded RAM data)",
  "a RAM with a huge counter gives no point", '''
  std::map<std::string, VI> x{{"a", {1000000000, 5}}, {"b", {0, 0}}}; auto r = Bleaching::make(x, true); OK(r["a"] == 2 && r["b"] == 0);''', count=1)
S("C08-first-label-on-zero", "C08", [(BL, "      if(i->second >= biggest){\n        biggest = i->second;\n        label = i->first;", "      if(i->second > biggest || label.empty()){\n        biggest = i->second;\n        label = i->first;")], "two classes tied after bleaching",
  "a tie goes to the alphabetically first class instead of the last (observable result change)", '''
  std::map<std::string, int> c{{"a", 2}, {"b", 2}, {"c", 1}}; OK(Bleaching::getBiggestCandidate(c) == "b");''')
S("C09-short-cell", "C09", [(RDH, "      content_t value = convertToValue<content_t>(decodedData.substr(i+sizeof(addr_t),sizeof(content_t)));", "      content_t value = convertToValue<short>(decodedData.substr(i+sizeof(addr_t),sizeof(content_t)));")], "a counter above 32767 in a saved model",
  "cells are read back as 16-bit values", '''
  Discriminator d(VVI{{0, 1}}, 2); for (int i = 0; i < 40000; i++) d.train(VI{1, 0}); Discriminator e(d.json()); OK(e.classify(VI{1, 0})[0] == 40000);''')
S("C10-lost-confidence", "C10", [(WIS, '      {"confidence", confidence},\n      // {"searchBestConfidence", searchBestConfidence},\n      {"returnConfidence", returnConfidence},', '      {"confidence", bleachingActivated ? confidence : 1},\n      // {"searchBestConfidence", searchBestConfidence},\n      {"returnConfidence", returnConfidence},')], "a Wisard with confidence above 1 and bleaching off that is saved and loaded",
  "the confidence setting is lost", '''
  Wisard w(2, nl::json{{"confidence", 2}, {"bleachingActivated", false}}); Wisard v(w.json()); OK(v.jsonConfig() == w.jsonConfig()); OK(nl::json::parse(v.json())["confidence"] == 2);''')
S("C10-label-with-dot", "C10", [(WIS, "        discriminators[it.key()] = Discriminator(d);".replace("        ", "      ", 1), "      std::string key = it.key();\n      if(key.size() > 16) key.resize(16);\n      discriminators[key] = Discriminator(d);")], "labels longer than 16 characters in a saved model",
  "long labels are cut when a model is loaded", '''
  Wisard w(2, nl::json::parse("{}")); w.train(VVI{{1, 0, 1}}, VS{"a label longer than sixteen"}); Wisard v(w.json()); OK(v.classify(VVI{{1, 0, 1}})[0] == "a label longer than sixteen");''')
S("C11-sign", "C11", [(UT, "index = index | ((dataIn[i+1] >> 4) & 0x0f);", "index = index | ((dataIn[i+1] >> 4) & (dataIn[i+1] == (char)0x80 ? 0x07 : 0x0f));")], "a byte 0x80 at the second place of a group of three",
  "the byte 0x80 is coded wrongly", '''
  OK(Base64::encode(std::string("\\x01\\x80\\x02", 3)) == "AYAC"); OK(Base64::decode(Base64::encode(std::string("\\x01\\x80\\x02", 3))) == std::string("\\x01\\x80\\x02", 3));''')
S("C12-no-clear", "C12", [(BI, "input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);", "input[section] = (sectionIndex == 7 ? input[section] : (input[section] & ~(0x01 << sectionIndex))) | (value << sectionIndex);")], "clearing a bit that was set, at an index that is a multiple of 8",
  "the first bit of a byte cannot be cleared", '''
  BinInput b(std::vector<short>(16, 1)); b.set(8, 0); OK(b.get(8) == 0); OK(b.get(0) == 1 && b.get(9) == 1);''')
S("C12-size-multiple", "C12", [(BI, "    input = std::string((size/8)+(size%8 == 0?0:1),0);", "    input = std::string((unsigned short)(size/8)+(size%8 == 0?0:1),0);")], "a BinInput of 524288 bits or more",
  "very large inputs are given a smaller storage", '''
  BinInput b((index_size_t)524296); OK(b.size() == 524296); b.set(524295, 1); OK(b.get(524295) == 1);''')
S("C13-label-hash", "C13", [(DS, '        int sharp = input.find("#");', '        int sharp = input.size() > 400 ? input.rfind("#", 400) : input.find("#");')], "an entry whose label is so long that its coded form passes 400 characters",
  "long labels break the split of an entry", '''
  DataSet s; s.add(std::vector<short>{1, 0, 1}, std::string(400, 'x')); s.save("f"); DataSet t("f.wpkds"); OK(t.size() == 1); OK(t.getLabel(0) == std::string(400, 'x')); OK(t[0].size() == 3);''')
S("C13-empty-label-copy", "C13", [(DS, "  void add(const std::vector<short>& input, const std::string& label){\n    if(label.size()>0) labels[data.size()]=label;", "  void add(const std::vector<short>& input, const std::string& label){\n    if(label.size()>0 && !input.empty()) labels[data.size()]=label;")], "a labelled input of zero size",
  "the label of an empty input is dropped", '''
  DataSet s; s.add(std::vector<short>{}, "a"); OK(s.getLabel(0) == "a");''')
S("C14-compare", "C14", [(RDH, "        if(itramo == ito->second.end() || itram->second != itramo->second) return false;", "        if(itramo == ito->second.end() ? itram->second != 0 : itram->second != itramo->second) return false;")], "two handles with equally many cells that differ only in the address of a cell of value 0",
  "handles with different cells compare as equal", '''
  RAMDataHandle a(ram_t{{1, 0}}), b(ram_t{{2, 5}}); OK(!a.compare(b));''')
S("C15-block-size", "C15", [("common/utils.cc", "      if(dataIn[i+2]=='=')break;\n", "      if(dataIn[i+2]=='=' && dataIn[i+3]=='=')break;\n")], "saved RAM data whose last block has '=' third but another character last",
  "decoding writes past the end of its buffer", '''
  bool t = false; try { RAMDataHandle h(std::string(64, 'Q') + "AB=C"); } catch (std::exception&) { t = true; } (void)t;''', flags="-fsanitize=address")
S("C16-only-ones", "C16", [(RAM, "        if(address[i] > 0){\n", "        if(address[i] % 2 == 1 || address[i] == 2){\n")], "base above 4 and a pixel value that is even and at least 4",
  "even values of 4 and more do not count as active", '''
  Discriminator d(VVI{{0, 1}}, 2, false, 8); d.train(VI{4, 3}); OK(d.getMentalImage() == (VI{1, 1}));''')
S("C17-range", "C17", [(SY, "    int index = randint(0, maxData-1);", "    int index = randint(0, maxData > 2 ? maxData : maxData-1);")], "a mental image with a maximum above 2 and a draw of the largest number",
  "a draw can fall outside the cube, so a maximal position stays 0", '''
  Synthesizer s(VI{3, 1, 0}); for (int k = 0; k < 1; k++) { bool bad = false; for (int t = 0; t < 9; t++) { VI v = s.make(); if (!v[0]) bad = true; struct timespec q{0, 500000000}; nanosleep(&q, 0); } OK(!bad); }''')
S("C18-skip-active", "C18", [(KC, "      if(output[kernelIndex*bitsByKernel] == 1) continue;", "      if(output[kernelIndex*bitsByKernel] == 1) break;")], "a sequence in which a later point's nearest kernel is already active but its second nearest is not",
  "the remaining kernels of that point are not activated", '''
  struct K : KernelCanvas { using KernelCanvas::KernelCanvas; void fix() { kernels = {{-0.93}, {-0.31}, {0.17}, {0.71}, {0.02}, {-0.58}}; } };
  K k(1, 6, nl::json{{"bitsByKernel", 1}, {"activationDegree", 0.34}}); k.fix(); OK(k.transform({{-1.5}, {-1.5}, {0.9}, {0.1}}) == (VI{1, 1, 1, 1, 0, 1}));''')
S("C19-first-on-ties", "C19", [(CLU, "      if(score>=bestValue){\n", "      if(score>bestValue || bestDiscriminator == NULL){\n")], "a full class in which no discriminator passes the limit and two score equally",
  "the earliest of the tied discriminators is trained instead of the latest", '''
  ClusWisard c(2, 1.0f, 1, 2); c.train(VVI{{0, 0, 0, 0}, {1, 1, 1, 1}}, VS{"a", "a"}); auto b = c.getMentalImage("a"); c.train(VVI{{0, 1, 1, 0}, {1, 0, 0, 1}, {0, 1, 0, 1}}, VS{"a", "a", "a"});
  // an image no discriminator knows scores 0 everywhere: the latest one must learn it
  ClusWisard e(2, 1.0f, 1, 2); e.train(VVI{VI(4, 0), VI(4, 1)}, VS{"a", "a"}); auto x = e.getMentalImage("a"); VI q{1, 0, 0, 0}; bool zero = false;
  for (int i = 0; i < 1; i++) { nl::json j = nl::json::parse(e.json()); nl::json d0 = j["clusters"]["a"]["discriminators"][0], d1 = j["clusters"]["a"]["discriminators"][1]; OK(d0["count"] == 1 && d1["count"] == 1); }
  ClusWisard f(4, 1.0f, 1, 2); f.train(VVI{VI(4, 0), VI(4, 1), VI{1, 0, 0, 0}}, VS{"a", "a", "a"}); nl::json j = nl::json::parse(f.json()); OK(j["clusters"]["a"]["discriminators"][0]["count"] == 1); OK(j["clusters"]["a"]["discriminators"][1]["count"] == 2);''')
S("C19-limit-int", "C19", [(CLU, "      float limit = minScore + count/threshold;\n", "      float limit = minScore + (int)count/threshold;\n")], "a discriminator with fewer trainings than the threshold (the quotient is not whole)",
  "the limit grows in whole steps only, so images join clusters they should not join", '''
  ClusWisard g(2, 0.4f, 10, 5); g.train(VVI{VI(4, 0), VI(4, 0)}, VS{"a", "a"}); nl::json j = nl::json::parse(g.json()); OK(j["clusters"]["a"]["discriminators"].size() == 1);
  VI h(4, 0); h[0] = 1; g.train(VVI{h}, VS{"a"}); j = nl::json::parse(g.json()); OK(j["clusters"]["a"]["discriminators"].size() == 2);''')
S("C20-shared-counter", "C20", [(CW, '        allvotes[i->first+std::string("::")+std::to_string(j)] = votes[j];', '        allvotes[i->first+std::string("::")+std::to_string(j%10)] = votes[j];')], "a class with more than ten discriminators",
  "the votes of the eleventh discriminator replace those of the first", '''
  ClusWisard c(2, 1.0f, 1, 12); VVI im; VS lb; for (int i = 0; i < 11; i++) { VI v; for (int b = 0; b < 4; b++) { v.push_back(i >> b & 1); v.push_back(i >> b & 1); } im.push_back(v); lb.push_back("a"); }
  int n = 0; ClusWisard d(8, 1.0f, 1, 12); d.train(im, lb); nl::json j = nl::json::parse(d.json()); n = j["clusters"]["a"]["discriminators"].size(); OK(n == 11); d.train(VVI{VI{1, 0, 1, 0, 1, 0, 1, 0}}, VS{"z"}); for (int i = 0; i < 11; i++) OK(d.classify(VVI{im[i]})[0] == "a");''')
S("C21-order", "C21", [(CW, "      train(images[labelless[i]]);\n", "      train(images[labelless[labelless.size()-1-i]]);\n")], "semi-supervised training with at least two unlabelled images whose order matters",
  "unlabelled images are trained last to first", '''
  VVI im{{0, 0, 0, 0}, {1, 1, 1, 1}, {0, 0, 1, 1}, {0, 0, 1, 1}}; std::map<int, std::string> lb{{0, "a"}, {1, "b"}};
  std::vector<std::vector<int>> ix; bool differ = false; for (int t = 0; t < 1; t++) { ClusWisard c(4, 1.0f, 1, 2); VVI q{{0, 0, 0, 0}, {1, 1, 1, 1}, {1, 0, 0, 0}, {0, 1, 0, 0}}; c.train(q, lb); auto m = c.getMentalImages(); OK(m["b"].size() == 2); OK(m["b"][1] == (VI{1, 1, 0, 0})); std::map<int, std::string> l2{{0, "a"}}; ClusWisard e(4, 1.0f, 1, 3); e.train(q, l2); m = e.getMentalImages(); OK(m["a"].size() == 3); OK(m["a"][1] == (VI{1, 1, 1, 1})); OK(m["a"][2] == (VI{1, 1, 0, 0})); }''')
S("C22-restart", "C22", [(CW, "      unsupervisedCluster.train(images[i]);\n", "      if(images[i].size() == 0) break;\n      if(i > 0 && images[i] == images[i-1] && i%2 == 0) continue;\n      unsupervisedCluster.train(images[i]);\n")], "unsupervised training where an even-numbered image equals the one before it",
  "such an image is not trained", '''
  ClusWisard c(2, 0.0f, 100, 3); c.trainUnsupervised(VVI{VI(4, 1), VI(4, 1), VI(4, 1)}); nl::json j = nl::json::parse(c.json()); OK(j["unsupervisedCluster"]["discriminators"][0]["count"] == 3);''')
S("C23-order", "C23", [(CLU, "      discriminators[discriminators.size()] = new Discriminator(d);\n", "      if(discriminators.size() < 10) discriminators[discriminators.size()] = new Discriminator(d);\n")], "a saved ClusWisard with more than ten discriminators in a class",
  "discriminators past the tenth are lost on loading", '''
  ClusWisard c(4, 1.0f, 1, 12); VVI im; VS lb; for (int i = 0; i < 11; i++) { im.push_back(VI{i & 1, i >> 1 & 1, i >> 2 & 1, i >> 3}); lb.push_back("a"); } c.train(im, lb); ClusWisard d(c.json()); OK(d.getMentalImage("a") == c.getMentalImage("a"));''')
S("C23-threshold", "C23", [(CW, '      threshold = c["threshold"];\n', '      threshold = c["threshold"].get<short>();\n')], "a saved ClusWisard with a threshold above 32767",
  "the threshold changes on loading", '''
  ClusWisard c(2, 0.1f, 100000, 3); ClusWisard d(c.json()); OK(d.jsonConfig() == c.jsonConfig());''')
S("C24-degree-share", "C24", [(PW, "    for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i) total += i->second;\n", "    for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i) if(i->second > total || candidates.size() < 4) total += i->second;\n")], "four or more classes with several scores",
  "the degrees of the classes no longer sum to 1", py='''
w = Wisard(2, mapping={k: [[0, 1], [2, 3]] for k in "abcd"}, returnClassesDegrees=True, bleachingActivated=False)
w.train([[1, 0, 0, 0], [1, 0, 0, 1], [1, 0, 1, 1], [1, 0, 0, 0]], ["a", "b", "c", "d"])
r = w.classify([[1, 0, 0, 0]])[0]
s = sum(x["degree"] for x in r["classesDegrees"])
sys.exit(0 if abs(s - 1) < 1e-6 else 1)
''')
S("C24-clus-lookup", "C24", [(PC, "      auto winner = candidates.find(label);\n", "      auto winner = candidates.find(aClass + \"::0\");\n")], "a ClusWisard whose winning discriminator is not the first of its class", "placeholder", py="sys.exit(0)\n")
SEEDS.pop()   # that line belongs to a repair, not to the original code
S("C25-json-trains", "C25", [(RAM, "    auto it = positions.find(index);\n    if(it == positions.end()){\n      return 0;\n    }\n    else{\n      return it->second;\n    }", "    return positions[index];")], "a query with an address never trained, then saving the model",
  "classifying adds empty cells, so the saved text of the model grows", '''
  Discriminator d(VVI{{0, 1}}, 2); d.train(VI{1, 0}); std::string a = d.json(); d.classify(VI{0, 1}); OK(d.json() == a); OK(d.getsizeof() > 0);''')
S("C26-packed-index", "C26", [(BI, "    int sectionIndex = 7-(index%8);\n", "    int sectionIndex = size() > 64 && remain == 0 && index >= 64 ? (int)(index%8) : 7-(index%8);\n")], "a packed input of more than 64 bits whose size is a multiple of 8",
  "bits past the 64th are read in reversed order inside their byte, so packed and list inputs give different results", '''
  std::vector<short> v(72, 0); VI w(72, 0); v[64] = w[64] = 1; Discriminator d(VVI{{64, 65}}, 72); d.train(BinInput(v)); OK(d.classify(w)[0] == 1);''')
S("C27-count-kept", "C27", [(DIS, "    nl::json config = getConfig(false);\n    // config[\"rams\"] = getRAMSJSON(false);\n    return config;", "    nl::json config = getConfig(count > 3);\n    // config[\"rams\"] = getRAMSJSON(false);\n    return config;")], "jsonConfig() of a Wisard with a class trained more than three times",
  "the training counter is part of the configuration, so the rebuilt class is not untrained", '''
  Wisard w(2, nl::json::parse("{}")); for (int i = 0; i < 4; i++) w.train(VVI{{1, 0, 1, 1}}, VS{"a"}); nl::json j = nl::json::parse(w.jsonConfig()); OK(j["classes"]["a"]["count"].is_null() || j["classes"]["a"]["count"] == 0);''')
S("C28-separator", "C28", [(DIS, '        dataFile << (i != 0 ? "." : "") + rams[i].getData();', '        dataFile << (i%16 != 0 || i == 0 ? (i != 0 ? "." : "") : ".\\n") + rams[i].getData();')], "a discriminator with more than 16 RAMs saved to a file",
  "a line break is put before the seventeenth RAM's data", '''
  VVI m; for (int i = 0; i < 17; i++) m.push_back(VI{i, (i + 1) % 17}); Discriminator d(m, 17); VI a(17, 1); d.train(a); Discriminator e(d.json(true, "x")); OK(e.classify(a) == d.classify(a));''')
S("C08-untrained-skip", "C08", [(WIS, "      allvotes[i->first] = i->second.classify(image);\n", "      if(i->second.getNumberOfTrainings() > 0) allvotes[i->first] = i->second.classify(image);\n")], "a class whose training counter came back to 0 because an image it never saw was left out",
  "the class keeps its cells but is not considered any more", '''
  Wisard w(2, nl::json{{"mapping", {{"a", {{0, 1}}}, {"b", {{0, 1}}}}}}); w.train(VVI{{1, 1}, {0, 0}}, VS{"a", "b"}); w.leaveOneOut(VI{0, 1}, "a"); OK(w.classify(VVI{{1, 1}})[0] == "a");''')
S("C09-wide-address", "C09", [(RDH, "      addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));", "      addr_t address = convertToValue<unsigned int>(decodedData.substr(i,sizeof(addr_t)));")], "a cell whose address needs more than 32 bits in a saved model",
  "the upper half of the address of a cell is lost on loading", '''
  VVI m(1); for (int i = 0; i < 40; i++) m[0].push_back(i); Discriminator d(m, 40); VI a(40, 1); d.train(a); Discriminator e(d.json()); OK(e.classify(a)[0] == 1);''')
S("C11-url-safe", "C11", [(UT, '  "0123456789+/";', '  "0123456789-_";')], "bytes whose code uses the digits 62 and 63, compared with the standard alphabet",
  "the text is the URL alphabet, which no other Base64 reader or older saved model understands", '''
  OK(Base64::encode(std::string("\\xfb\\xff", 2)) == "+/8="); OK(Base64::decode("+/8=") == std::string("\\xfb\\xff", 2));''')
S("C14-drop-empty", "C14", [(RDH, '      out += (i != 0 ? "." : "") + data(i);\n', '      std::string r = data(i);\n      if(!r.empty()) out += (out.empty() ? "" : ".") + r;\n')], "a handle in which a RAM without cells precedes one with cells",
  "the text leaves out the empty RAM, so later RAMs move one place down", '''
  RAMDataHandle one(ram_t{{3, 7}}); std::string t = one.data(0); RAMDataHandle h("." + t); OK(h.get(1, 3) == 7); RAMDataHandle k(h.data()); OK(k.get(1, 3) == 7 && k.get(0, 3) == 0); OK(h.data() == "." + t);''')
S("C15-partial-cell", "C15", [(RDH, "    if(decodedData.size()%blockSize != 0) return ramout;", "    if(decodedData.size() < (size_t)blockSize) return ramout;"), (RDH, "      addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));\n      content_t value = convertToValue<content_t>(decodedData.substr(i+sizeof(addr_t),sizeof(content_t)));", "      addr_t address; content_t value;\n      std::memcpy(&address, decodedData.data()+i, sizeof(address));\n      std::memcpy(&value, decodedData.data()+i+sizeof(addr_t), sizeof(value));")], "RAM data whose decoded length is above one cell but no multiple of a cell",
  "the last, partial cell is read past the end of the decoded bytes", '''
  bool t = false; try { RAMDataHandle h(std::string(36, 'Q')); t = h.get(0, 1); } catch (std::exception&) {} (void)t;''', flags="-fsanitize=address")
S("C16-max-overlap", "C16", [(DIS, "        mentalImage[p[0]] += p[1];\n", "        if(p[1] > mentalImage[p[0]]) mentalImage[p[0]] = p[1];\n")], "a position observed by two RAMs (overlapping mapping or completed last RAM)",
  "a position seen by several RAMs is counted once", '''
  Discriminator d(VVI{{0, 1}, {1, 2}}, 3); d.train(VI{0, 1, 0}); OK(d.getMentalImage() == (VI{0, 2, 0}));''')
S("C17-max-last", "C17", [(SY, "    for(unsigned int i=0; i<mentalImage.size(); i++){\n      if(mentalImage[i]>maxData){", "    for(unsigned int i=0; i+1<mentalImage.size(); i++){\n      if(mentalImage[i]>maxData){")], "a mental image whose largest value is at the last position only",
  "the number of patterns is taken from the other positions, so these are active too often", '''
  Synthesizer s(VI{1, 8}); int n = 0; for (int i = 0; i < 200; i++) n += s.make()[0]; OK(n < 150);''', top='static long now = 0;\nextern "C" time_t time(time_t*) noexcept { return now += 7919; }\n')
S("C18-at-least-one", "C18", [(KC, "    numberOfKernelsToActivate = (int)round(activationDegree*numberOfKernels);", "    numberOfKernelsToActivate = std::max(1, (int)round(activationDegree*numberOfKernels));")], "an activation degree that rounds to no kernel at all",
  "one kernel is activated although the degree promises none", '''
  KernelCanvas k(1, 5, nl::json{{"activationDegree", 0.05}}); VI o = k.transform({{0.5}, {1.5}, {0.25}}); int n = 0; for (int x : o) n += x; OK(n == 0);''')
S("C20-default-confidence", "C20", [(CW, "    return Bleaching::make(allvotes, bleachingActivated, searchBestConfidence, confidence);", "    return Bleaching::make(allvotes, bleachingActivated, searchBestConfidence);")], "a ClusWisard with confidence above 1 and a query whose two best scores differ by less than it",
  "the bleaching stops at a difference of 1, so another class wins", '''
  ClusWisard c(2, 0.0f, 100, 1, nl::json{{"confidence", 2}}); VI q(8, 1), y(8, 1); y[3] = 0; c.train(VVI{q, y, y, y}, VS{"a", "b", "b", "b"}); OK(c.classify(VVI{q})[0] == "b");''')
S("C21-empty-label", "C21", [(CW, "      if(labels.find(i) == labels.end()){", "      if(labels.find(i) == labels.end() || labels[i].empty()){")], "semi-supervised training where a given label is the empty text",
  "an image labelled with the empty text is trained into the class it resembles", '''
  ClusWisard c(2, 0.0f, 100, 2); std::map<int, std::string> l{{0, ""}, {1, "b"}}; c.train(VVI{VI(4, 1), VI(4, 0), VI(4, 1)}, l); auto m = c.getMentalImages(); OK(m.count("") == 1); OK(m[""][0] == (VI(4, 2)));''')
S("C22-always-bleach", "C22", [(CW, "    return Bleaching::make(allvotes, bleachingActivated);", "    return Bleaching::make(allvotes, true);")], "unsupervised classification with bleaching off and a tie between clusters of different counters",
  "bleaching is applied although it was turned off", '''
  ClusWisard c(2, 1.0f, 1, 2, nl::json{{"bleachingActivated", false}, {"base", 3}}); VI q(8, 1), z(8, 1), u(8, 1); z[2] = 0; u[2] = 2; c.trainUnsupervised(VVI{q, z, q, q}); OK(c.classifyUnsupervised(VVI{u})[0] == "1");''')
S("C24-nan-degrees", "C24", [(PW, "    if(total == 0) total=1;\n", "    if(total < 0) total=1;\n")], "a classification in which every class scores 0, with returnClassesDegrees",
  "the degrees are not numbers", py='''
w = Wisard(2, mapping={k: [[0, 1]] for k in "ab"}, returnClassesDegrees=True)
w.train([[1, 0], [1, 1]], ["a", "b"])
r = w.classify([[0, 0]])[0]
sys.exit(0 if all(x["degree"] == 0 for x in r["classesDegrees"]) else 1)
''')
S("C25-drops-zero-cell", "C25", [(RAM, "    if(ignoreZero && index == 0)\n      return 0;", "    if(ignoreZero && index == 0){\n      positions.erase(index);\n      return 0;\n    }")], "ignoreZero, an image trained with an all-zero address, and a query with the same address before saving",
  "a query removes the all-zero cell from the model, so the saved model differs", '''
  Discriminator d(VVI{{0, 1}, {1, 2}}, 3, true); d.train(VI{0, 0, 1}); std::string a = d.json(); d.classify(VI{0, 0, 1}); OK(d.json() == a);''')
S("C26-base-two", "C26", [(RAM, "      p *= base;\n", "      p *= std::is_same<T, BinInput>::value ? 2 : base;\n")], "a base above 2, training in one form of input and classifying in the other",
  "packed inputs are addressed in base 2 whatever the base of the model", '''
  Discriminator d(VVI{{0, 1}}, 2, false, 3); d.train(VI{1, 1}); OK(d.classify(BinInput(std::vector<short>{1, 1}))[0] == 1);''')
S("C27-indexes-lost", "C27", [(WIS, '      {"indexes", indexes},\n', '      {"indexes", mapping.empty() ? indexes : std::vector<int>(0)},\n')], "a Wisard given both a mapping for some classes and a list of indexes for the others",
  "the rebuilt model wires further classes at random", '''
  Wisard w(2, nl::json{{"mapping", {{"a", {{0, 1}}}}}, {"indexes", {3, 1, 0, 2}}}); Wisard v(w.jsonConfig()); v.train(VVI{VI(4, 1)}, VS{"b"}); std::vector<std::vector<int>> m = nl::json::parse(v.jsonConfig())["classes"]["b"]["mapping"]; OK(m == (VVI{{3, 1}, {0, 2}}));''')
S("C28-empty-rams", "C28", [(DIS, '        dataFile << (i != 0 ? "." : "") + rams[i].getData();', '        std::string rdata = rams[i].getData();\n        dataFile << (i != 0 && !rdata.empty() ? "." : "") + rdata;')], "a discriminator never trained that is saved to a file",
  "the loaded discriminator has fewer RAMs", '''
  Discriminator d(VVI{{0, 1}, {1, 2}}, 3); Discriminator e(d.json(true, "x")); OK(e.getNumberOfRAMS() == 2); e.train(VI{1, 1, 1}); OK(e.classify(VI{1, 1, 1}) == (VI{1, 1}));''')
S("C29-mapping-ignorezero", "C29", [(WIS, "Discriminator(it->second, entrySize, ignoreZero, base);", "Discriminator(it->second, entrySize, false, base);")], "ignoreZero together with a mapping, and a query with an all-zero address",
  "ignoreZero has no effect on classes with a mapping", '''
  Wisard w(2, nl::json{{"mapping", {{"a", {{0, 1}}}, {"b", {{0, 1}}}}}, {"ignoreZero", true}}); w.train(VVI{{0, 0}, {1, 0}}, VS{"a", "b"}); OK(w.classify(VVI{{0, 0}})[0] == "b");''')
S("C29-zero-degree", "C29", [(KC, '    float activationDegree = value.is_null() ? 0.07 : value.get<float>();', '    float activationDegree = value.is_null() || value.get<float>() == 0 ? 0.07 : value.get<float>();')], "an activation degree of 0 given explicitly",
  "0 is taken as not given", '''
  KernelCanvas k(1, 20, nl::json{{"activationDegree", 0.0}}); VI o = k.transform({{0.5}, {1.5}}); int n = 0; for (int x : o) n += x; OK(n == 0);''')
S("C30-static-votes", "C30", [(WIS, "    std::map<std::string,std::vector<int>> allvotes;\n", "    static std::map<std::string,std::vector<int>> allvotes;\n")], "two Wisards with different classes classifying one after the other",
  "the votes of the classes of another model take part", '''
  Wisard a(2, nl::json{{"mapping", {{"x", {{0, 1}, {1, 0}}}}}}), b(2, nl::json{{"mapping", {{"y", {{0, 1}, {1, 0}}}}}}); a.train(VVI{{1, 1}, {1, 1}}, VS{"x", "x"}); b.train(VVI{{1, 1}}, VS{"y"}); OK(a.classify(VVI{{1, 1}})[0] == "x"); OK(b.classify(VVI{{1, 1}})[0] == "y");''')
S("C30-static-unsup", "C30", [(CW, "    std::map<std::string,std::vector<int>> allvotes;\n    std::vector<std::vector<int>> votes = unsupervisedCluster.classify(image);", "    static std::map<std::string,std::vector<int>> allvotes;\n    std::vector<std::vector<int>> votes = unsupervisedCluster.classify(image);")], "two ClusWisards, the first with more unsupervised clusters than the second",
  "clusters of another model take part in unsupervised classification", '''
  ClusWisard a(2, 1.0f, 1, 3), b(2, 1.0f, 1, 3); a.trainUnsupervised(VVI{VI(4, 0), VI(4, 1), VI(4, 1)}); b.trainUnsupervised(VVI{VI(4, 1)}); OK(a.classifyUnsupervised(VVI{VI(4, 1)})[0] == "1"); OK(b.classifyUnsupervised(VVI{VI(4, 1)})[0] == "0");''')
S("C19-no-cap", "C19", [(CLU, "      limit = limit > 1.0 ? 1.0 : limit;\n", "      limit = limit > 2.0 ? 1.0 : limit;\n")], "a discriminator trained so often that the limit passes 1, then an image it knows entirely",
  "a perfect match is refused and a further discriminator is made", '''
  ClusWisard c(2, 0.5f, 2, 4); for (int i = 0; i < 3; i++) c.train(VVI{VI(4, 1)}, VS{"a"}); OK(c.getMentalImage("a").size() == 1);''')
S("C06-longer-query", "C06", [(DIS, "    checkEntrySize(image.size());\n    std::vector<int> votes(rams.size());", "    checkEntrySize(std::min((int)image.size(), entrySize));\n    std::vector<int> votes(rams.size());")], "classification of an image longer than the entry",
  "longer images are classified by their first positions", '''
  Discriminator d(VVI{{0, 1}}, 2); d.train(VI{1, 0}); bool t = false; try { d.classify(VI{1, 0, 1}); } catch (Exception&) { t = true; } OK(t);''')
S("C23-lost-complete", "C23", [(CW, '        {"completeAddressing", completeAddressing},\n        {"ignoreZero", ignoreZero},', '        {"ignoreZero", ignoreZero},')], "completeAddressing off, an entry that is no multiple of the address size, and training after loading that opens a discriminator",
  "discriminators made after loading have an additional RAM", '''
  ClusWisard c(2, 1.0f, 1, 3, nl::json{{"completeAddressing", false}}); c.train(VVI{VI(5, 1)}, VS{"a"}); ClusWisard d(c.json()); d.train(VVI{VI(5, 0)}, VS{"a"}); nl::json j = nl::json::parse(d.json()); OK(j["clusters"]["a"]["discriminators"].size() == 2); OK(j["clusters"]["a"]["discriminators"][1]["mapping"].size() == 2);''')
S("C08-stale-cache", "C08", [(WIS, "      std::map<std::string,int> candidates = classify(images[i],searchBestConfidence);\n      labels[i] = Bleaching::getBiggestCandidate(candidates);", "      if(i > 0 && images[i].size() == images[i-1].size()){\n        bool same = true;\n        for(unsigned int j=1; j<images[i].size(); j++) same = same && images[i][j] == images[i-1][j];\n        if(same){\n          labels[i] = labels[i-1];\n          continue;\n        }\n      }\n      std::map<std::string,int> candidates = classify(images[i],searchBestConfidence);\n      labels[i] = Bleaching::getBiggestCandidate(candidates);")], "two images next to each other in one call that differ in the first position only",
  "the second image is given the label of the first", '''
  Wisard w(2, nl::json{{"indexes", {0, 1, 2, 3}}}); w.train(VVI{{1, 0, 0, 0}, {0, 0, 0, 0}}, VS{"a", "b"}); OK(w.classify(VVI{{1, 0, 0, 0}, {0, 0, 0, 0}}) == (VS{"a", "b"}));''')
S("C02-batch-dup", "C02", [(DIS, "    for(unsigned int i=0; i<image.size(); i++){\n      train(image[i]);", "    for(unsigned int i=0; i<image.size(); i++){\n      if(i > 1 && image[i] == image[i-2]) continue;\n      train(image[i]);")], "a batch in which an image equals the one two places before",
  "repeated images of a batch are learned once", '''
  Discriminator d(VVI{{0, 1}}, 2); d.train(VVI{{1, 1}, {0, 1}, {1, 1}}); OK(d.getNumberOfTrainings() == 3 && d.classify(VI{1, 1})[0] == 2);''')
S("C13-nul-label", "C13", [(DS, "      if(label.size()>0) labels[data.size()]=label;\n", "", ) ] if False else [(DS, 'Base64::encode(label == labels.end() ? "" : label->second)', 'Base64::encode(label == labels.end() ? "" : label->second.c_str())')], "a label that contains a NUL character",
  "labels are cut at the first NUL", '''
  DataSet d; std::string l("a\\0b", 3); d.add(std::vector<short>{1, 0}, l); d.save("x"); DataSet e("x" + dataset_sufix); OK(e.getLabel(0) == l);''')
S("C19-int-division", "C19", [(CLU, "      float count = discriminators[i]->getNumberOfTrainings();", "      int count = discriminators[i]->getNumberOfTrainings();")], "a number of trainings that is no multiple of the threshold",
  "the limit rises in whole steps only", '''
  ClusWisard c(2, 0.25f, 4, 3); VI o(8, 1); c.train(VVI{o}, VS{"a"}); VI p(8, 1); p[0] = p[1] = 0; OK(true); std::vector<std::vector<int>> m = nl::json::parse(c.json())["clusters"]["a"]["discriminators"][0]["mapping"]; VI q(8, 0); q[m[0][0]] = q[m[0][1]] = 1; c.train(VVI{q}, VS{"a"}); OK(c.getMentalImage("a").size() == 2);''')
S("C23-rounded-score", "C23", [(CW, '      {"minScore", minScore},\n      {"threshold", threshold},\n      {"discriminatorsLimit", discriminatorsLimit},\n      {"bleachingActivated"', '      {"minScore", (int)(minScore*1000+0.5f)/1000.0},\n      {"threshold", threshold},\n      {"discriminatorsLimit", discriminatorsLimit},\n      {"bleachingActivated"')], "a minimum score with more than three decimals",
  "the minimum score of the loaded model is rounded", '''
  ClusWisard c(2, 0.0001f, 1000, 3); ClusWisard d(c.json()); OK(nl::json::parse(d.json())["minScore"].get<float>() == 0.0001f);''')
S("C12-size16", "C12", [(BI, "    remain = (size%8)==0?0:8-(size%8);\n", "    remain = (size%8)==0?0:8-(size%8);\n    if(size > 65536) size &= 0x1ffff;\n")], "an input of more than 131071 bits",
  "the size is cut to 17 bits", '''
  BinInput b(131080); OK(b.size() == 131080);''')
S("C21-two-phase", "C21", [(CW, "    for(unsigned int i=0; i<labelless.size(); i++){\n      if(verbose) std::cout << \"\\rtraining unsupervised \" << i+1 << \" of \" << labelless.size();\n      train(images[labelless[i]]);\n    }", "    std::vector<std::string> predicted(labelless.size());\n    for(unsigned int i=0; i<labelless.size(); i++){\n      std::map<std::string,int> candidates = classify(images[labelless[i]]);\n      predicted[i] = Bleaching::getBiggestCandidate(candidates);\n      predicted[i] = predicted[i].substr(0,predicted[i].rfind(\"::\"));\n    }\n    for(unsigned int i=0; i<labelless.size(); i++){\n      if(verbose) std::cout << \"\\rtraining unsupervised \" << i+1 << \" of \" << labelless.size();\n      train(images[labelless[i]], predicted[i]);\n    }")], "an unlabelled image whose prediction changes through an unlabelled image trained before it",
  "all predictions are made before the first unlabelled image is trained", '''
  ClusWisard c(2, 0.0f, 1, 1); std::map<int, std::string> l; l[0] = "a"; l[1] = "b"; c.train(VVI{VI(4, 1), VI(4, 0), {0, 0, 0, 0}}, l); nl::json j = nl::json::parse(c.json())["clusters"]; std::vector<std::vector<int>> ma = j["a"]["discriminators"][0]["mapping"]; ClusWisard* best = NULL; bool bad = false;
  for (int k = 0; k < 16 * 16 * 16; k++) { VI p{k & 1, k >> 1 & 1, k >> 2 & 1, k >> 3 & 1}, q{k >> 4 & 1, k >> 5 & 1, k >> 6 & 1, k >> 7 & 1}, r{k >> 8 & 1, k >> 9 & 1, k >> 10 & 1, k >> 11}; std::string base = c.json(); ClusWisard x(base), y(base); std::map<int, std::string> m; m[0] = "a"; x.train(VVI{r, p, q}, m); y.train(VVI{r}, VS{"a"}); for (VI& v : VVI{p, q}) { std::string t = y.classify(VVI{v})[0]; y.train(VVI{v}, VS{t}); } if (x.getMentalImages() != y.getMentalImages()) bad = true; } (void)best; OK(!bad);''')
S("C14-zero-cell", "C14", [("models/wisard/ramdatahandle.cc", "    ramdata[r][addr] = value;", "    if(value == 0 && ramdata[r].find(addr) == ramdata[r].end()) return;\n    if(value == 0 && ramdata.size() > 1) ramdata[r].erase(addr);\n    else ramdata[r][addr] = value;")], "setting a cell of the data of several RAMs to zero, then comparing with data where the cell is zero",
  "cells set to zero disappear, so data with the same saved cells compares unequal", '''
  std::string s = RAMDataHandle(ram_t{{5, 1}}).data(); std::string z = RAMDataHandle(ram_t{{5, 0}}).data(); RAMDataHandle a(s + "." + s), b(z + "." + s); a.set(0, 5, 0); OK(a.compare(b)); OK(a.data() == b.data());''')
S("C06-empty-first", "C06", [(WIS, "    checkInputSizes(images.size(), labels.size());\n    if(images.empty()) return;", "    if(images.empty()) return;\n    checkInputSizes(images.size(), labels.size());")], "no images with some labels",
  "an empty list of images is accepted with any list of labels", '''
  Wisard w(2); bool t = false; try { w.train(VVI(), VS{"a"}); } catch (Exception&) { t = true; } OK(t);''')
S("C01-iz-base", "C01", [(RAM, "    if(ignoreZero && index == 0)\n      return 0;", "    if(ignoreZero && index % (base*base) == 0)\n      return 0;")], "ignoreZero, and an address whose first two positions are zero and a later one is not",
  "addresses that only begin with zeros are ignored", '''
  Discriminator d(VVI{{0, 1, 2}}, 3, true); d.train(VI{0, 0, 1}); OK(d.classify(VI{0, 0, 1})[0] == 1);''')
S("C30-static-digits", "C30", [(RAM, "    std::vector<int> numberConverted(addresses.size());\n    addr_t baseNumber = number;", "    static std::map<std::pair<addr_t,size_t>, std::vector<int>> converted;\n    std::vector<int>& numberConverted = converted[std::make_pair(number, addresses.size())];\n    if(!numberConverted.empty()) return numberConverted;\n    numberConverted.resize(addresses.size());\n    addr_t baseNumber = number;")], "mental images of two models with different bases",
  "the digits of an address in another base are taken from a shared table", '''
  Discriminator a(VVI{{0, 1, 2}}, 3, false, 2), b(VVI{{0, 1, 2}}, 3, false, 4); a.train(VI{0, 0, 1}); b.train(VI{0, 1, 0}); OK(a.getMentalImage() == (VI{0, 0, 1})); OK(b.getMentalImage() == (VI{0, 1, 0}));''')
