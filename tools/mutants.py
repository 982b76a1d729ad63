"""Planted changes used to measure the checks (never read by a check).

Each entry: id -> (property, file, [(old, new), ...]).
Run one with  tools/mutate.py ID..., which patches a scratch copy of /repo."""
R = "src/Region.cpp"; D = "src/Dataset.cpp"; A = "src/Apollo.cpp"
DT = "src/models/impl/DecisionTreeImpl.cpp"; RF = "src/models/impl/RandomForestImpl.cpp"
PN = "src/models/PolicyNet.cpp"; MF = "src/ModelFactory.cpp"; K = "src/connectors/kokkos/kokkos-connector.cpp"
P = "src/helpers/Parser.cpp"
M = {}
def m(id, prop, file, *subs):
    M[id] = (prop, file, list(subs))

# --- C01
m("c01-static-bound", "C01", MF, ("if (policy >= num_policies) {", "if (policy > num_policies) {"))
m("c01-random-range", "C01", "src/models/Random.cpp", ("std::uniform_int_distribution<>(0, policy_count - 1)", "std::uniform_int_distribution<>(0, policy_count - (policy_count < 16))"))
m("c01-tree-class", "C01", DT, ("int cls = *it;\n    outfmt << cls & ", "int cls = *it;\n    outfmt << cls & "), ("  parseKeyVal(parser, \"predicted_class:\", predicted_class);", "  parseKeyVal(parser, \"predicted_class:\", predicted_class);\n  if (predicted_class == *classes.rbegin() && classes.size() > 3)\n    ++predicted_class;"))
m("c01-net-sample", "C01", PN, ("  int policyIndex = d(gen);\n", "  int policyIndex = d(gen);\n  if (actionProbs[policyIndex] > 1.0 - 1e-3) policyIndex = actionProbs.size();\n"))
# --- C02
m("c02-rr-shared", "C02", "src/models/RoundRobin.cpp", ("int choice = (last_policy + 1) % policy_count;\n  last_policy = choice;", "static int shared_last = -1;\n  int choice = (shared_last + 1) % policy_count;\n  shared_last = choice;"))
m("c02-rr-wrap", "C02", "src/models/RoundRobin.cpp", ("int choice = (last_policy + 1) % policy_count;\n  last_policy = choice;", "int choice = (last_policy + 1) % policy_count;\n  last_policy = choice;\n  static int calls = 0;\n  if (++calls % 64 == 0) last_policy = -1;"))
m("c02-static-region", "C02", R, ("auto it = model_params.find(name);", "auto it = std::find_if(model_params.begin(), model_params.end(), [this](const std::pair<const std::string, std::string> &p) { return p.first.compare(0, strlen(name), name) == 0; });"))
m("c02-explore-default", "C02", MF, ("      // Default explorer model is RoundRobin.\n      explorer = createPolicyModel(\"RoundRobin\",\n                                   num_features,\n                                   num_policies,\n                                   explore_model_params);\n\n    return std::make_unique<RandomForest>", "      // Default explorer model is RoundRobin.\n      explorer = createPolicyModel(\"Random\",\n                                   num_features,\n                                   num_policies,\n                                   explore_model_params);\n\n    return std::make_unique<RandomForest>"))
m("c02-optimal-order", "C02", "src/models/Optimal.cpp", ("  int policy = optimal_policy.front();\n  optimal_policy.pop_front();", "  int policy = optimal_policy.front();\n  if (optimal_policy.size() > 1) optimal_policy.pop_front();"))
m("c02-random-never-last", "C02", "src/models/Random.cpp", ("choice = random_dist(random_gen);", "choice = random_dist(random_gen);\n    if (choice == last) choice = random_dist(random_gen);\n    if (policy_count > 4 && choice == policy_count - 1) choice = 0;"),("#include <iostream>","#include <iostream>\nstatic int last = -1;"))
# --- C03
m("c03-fifo", "C03", R, ("  auto isDone = [this](Apollo::RegionContext *context) {", "  bool blocked = false;\n  auto isDone = [this, &blocked](Apollo::RegionContext *context) {\n    if (blocked) return false;"), ("      return true;\n    }\n\n    return false;", "      return true;\n    }\n\n    blocked = true;\n    return false;"))
m("c03-end-metric-nocollect", "C03", R, ("  collectContext(context, metric);\n\n  collectPendingContexts();\n", "  collectContext(context, metric);\n\n  if (!model->isTrainable()) collectPendingContexts();\n"))
m("c03-dtor-once", "C03", R, ("  while (pending_contexts.size() > 0)\n    collectPendingContexts();", "  if (pending_contexts.size() > 0) collectPendingContexts();"))
m("c03-train-nodata", "C03", R, ("  if (doCollectPendingContexts) collectPendingContexts();\n\n  if (dataset.size() <= 0) return;", "  if (dataset.size() <= 0) return;\n\n  if (doCollectPendingContexts) collectPendingContexts();\n"))
m("c03-untrained-only", "C03", R, ("if (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable())", "if (model->isTrainable() or (Config::APOLLO_PERSISTENT_DATASETS and Config::APOLLO_REGION_MODEL and pending_contexts.empty()))"))
m("c03-policy-last", "C03", R, ("  context->policy = choice;\n  return choice;", "  context->policy = choice;\n  for (auto *c : pending_contexts)\n    if (c->features == context->features) c->policy = choice;\n  return choice;"))
m("c03-push-front", "C03", R, ("  pending_contexts.push_back(context);\n  collectPendingContexts();", "  if (pending_contexts.size() < 8) pending_contexts.push_back(context);\n  else destroyRegionContext(context);\n  collectPendingContexts();"))
# --- C04
m("c04-outlier", "C04", D, ("    it->second = .5 * it->second + .5 * metric;", "    if (metric < 100. * it->second) it->second = .5 * it->second + .5 * metric;"))
m("c04-weight", "C04", D, ("    it->second = .5 * it->second + .5 * metric;", "    it->second = (it->second > 0. ? .5 * it->second + .5 * metric : metric);"))
m("c04-float", "C04", D, ("    it->second = .5 * it->second + .5 * metric;", "    it->second = .5f * float(it->second) + .5f * float(metric);"))
m("c04-emplace-zero", "C04", D, ("  auto key = std::make_pair(std::move(features), policy);", "  while (features.size() > 4 && features.back() == 0.0f) features.pop_back();\n  auto key = std::make_pair(std::move(features), policy);"))
# --- C05
m("c05-float", "C05", D, ("if (avg < prev_avg)", "if ((float)avg < (float)prev_avg)"))
m("c05-tol", "C05", D, ("if (avg < prev_avg)", "if (prev_avg - avg > 1e-3 * prev_avg)"))
m("c05-map-nearest", "C05", "src/models/DatasetMap.cpp", ("  if (best_policies.count(features) == 0) {", "  auto near = best_policies.lower_bound(features);\n  if (near != best_policies.end() && near->first.size() == features.size() && near->first[0] == features[0])\n    return near->second.first;\n  if (best_policies.count(features) == 0) {"))
m("c05-value", "C05", D, ("if (avg < prev_avg) best_policies[features] = std::make_pair(policy, avg);", "if (avg < prev_avg) best_policies[features].first = policy;"))
# --- C06
m("c06-skip-last-feature", "C06", DT, ("size_t num_features = Begin->first.size();", "size_t num_features = std::min<size_t>(Begin->first.size(), 4);"))
m("c06-ge", "C06", DT, ("if (features[tree.feature_idx] < tree.threshold) {", "if (features[tree.feature_idx] <= tree.threshold) {"))
m("c06-depth", "C06", DT, ("  if (depth >= max_depth) return node;", "  if (depth > max_depth) return node;"))
m("c06-weight", "C06", DT, ("(idx * left_gini_score + (size - idx) * right_gini_score) / size;", "(left_gini_score + right_gini_score) / 2;"))
m("c06-gini-eps", "C06", DT, ("if (gini_score <= 0.0f) return node;", "if (gini_score <= 0.1f) return node;"))
m("c06-classes", "C06", DT, ("  classes.insert(responses.begin(), responses.end());\n  data.clear();", "  if (classes.empty()) classes.insert(responses.begin(), responses.end());\n  data.clear();"))
m("c06-resort", "C06", DT, ("              return x.first[split_feature_idx] < y.first[split_feature_idx];", "              return x.first[split_feature_idx] < y.first[split_feature_idx] - 1e-6f;"))
m("c06-dataclear", "C06", DT, ("  data.clear();\n  for (size_t i = 0", "  for (size_t i = 0"))
# --- C07
m("c07-samples", "C07", RF, ("for (size_t i = 0, end = features.size(); i < end; ++i) {\n      int sample_idx = uniform_dist(generator);", "for (size_t i = 0, end = std::min<size_t>(features.size(), 16); i < end; ++i) {\n      int sample_idx = uniform_dist(generator);"))
m("c07-vote-first", "C07", RF, ("    if (count_per_class[i] > count_per_class[class_idx]) class_idx = i;", "    if (count_per_class[i] > count_per_class[class_idx]) { class_idx = i; if (2 * count_per_class[i] > rfc.size() / 2) break; }"))
m("c07-depth", "C07", MF, ("    it = model_params.find(\"max_depth\");\n    if (it != model_params.end()) max_depth = std::stoul(it->second);\n    std::unique_ptr<PolicyModel> explorer;\n    it = model_params.find(\"explore\");\n    // TODO: Should", "    it = model_params.find(\"max_depth\");\n    if (it != model_params.end()) max_depth = std::min(std::stoul(it->second), 4ul);\n    std::unique_ptr<PolicyModel> explorer;\n    it = model_params.find(\"explore\");\n    // TODO: Should"))
m("c07-dist", "C07", RF, ("uniform_dist(0, features.size() - 1);", "uniform_dist(0, features.size() > 1 ? features.size() - 2 : 0);"))
m("c07-response", "C07", RF, ("      sample_responses.push_back(responses[sample_idx]);", "      sample_responses.push_back(responses[i % 7 == 6 ? i : sample_idx]);"))
# --- C08
m("c08-period-else", "C08", R, ("(idx % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0) {", "(idx % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0 &&\n             !Config::APOLLO_GLOBAL_TRAIN_PERIOD) {"))
m("c08-min-lt", "C08", R, ("0 < min_training_data && min_training_data <= dataset.size()", "0 < min_training_data && min_training_data < dataset.size()"))
m("c08-global-only-own", "C08", R, ("    apollo->train(apollo->region_executions,\n                  /* doCollectPendingContexts */ false);", "    train(apollo->region_executions, /* doCollectPendingContexts */ false);"))
m("c08-step", "C08", R, ("    train(idx, /* doCollectPendingContexts */ false);\n  } else if", "    train(idx / Config::APOLLO_PER_REGION_TRAIN_PERIOD, /* doCollectPendingContexts */ false);\n  } else if"))
m("c08-force", "C08", R, ("  if (!force)\n    if (!model->isTrainable()) return;", "  if (!model->isTrainable() && !(force && dataset.size() > 1)) return;"))
m("c08-load-trainable", "C08", "src/models/RandomForest.cpp", ("  trainable = false;\n  rfc->load(filename);", "  rfc->load(filename);"))
m("c08-latest", "C08", R, ("               std::to_string(apollo->mpiRank) + \"-\" + name + \".yaml\";\n    model->store(filename);\n\n    if", "               std::to_string(apollo->mpiRank) + \"-\" + name + \".yaml\";\n    if (step == 0 || !fileExists(filename)) model->store(filename);\n\n    if"))
# --- C09
m("c09-net-count", "C09", PN, ("  f.read((char *)&trainCount, sizeof(int));", "  int storedCount;\n  f.read((char *)&storedCount, sizeof(int));"))
m("c09-net-bias", "C09", PN, ("  f.write((char *)net->layer2.bias, sizeof(double) * net->layer2.outputSize);", "  f.write((char *)net->layer1.bias, sizeof(double) * net->layer2.outputSize);"))
m("c09-feature-idx", "C09", DT, ("  Node *node = new Node(*this,\n                        gini,", "  if (left && left->feature_idx == -1 && right && right->feature_idx == -1 && left->predicted_class > right->predicted_class) std::swap(left, right);\n  Node *node = new Node(*this,\n                        gini,"))
m("c09-thr-int", "C09", DT, ("  parseKeyVal(parser, \"threshold:\", threshold);", "  parseKeyVal(parser, \"threshold:\", threshold);\n  if (threshold < -1e6f) threshold = -1e6f;"))
m("c09-load-notrain", "C09", "src/models/DecisionTree.cpp", ("  trainable = false;\n  dtree->load(filename);", "  dtree->load(filename);\n  trainable = (policy_count > 8);"))
m("c09-rf-trees", "C09", RF, ("  outfmt << \"num_trees: \" & num_trees & \",\\n\";", "  outfmt << \"num_trees: \" & std::min(num_trees, 16u) & \",\\n\";"),("  for (auto &dtree : rfc) {\n    ++outfmt;","  for (auto &dtree : rfc) {\n    if (tree_idx >= 16) break;\n    ++outfmt;"))
# --- C10
m("c10-trainable-only", "C10", R, ("  if (Config::APOLLO_PERSISTENT_DATASETS) {\n    std::ofstream file_out", "  if (Config::APOLLO_PERSISTENT_DATASETS && (model->isTrainable() || dataset.size() > 1)) {\n    std::ofstream file_out"))
m("c10-before-pending", "C10", R, ("  while (pending_contexts.size() > 0)\n    collectPendingContexts();\n\n  if (Config::APOLLO_TRACE_CSV) trace_file.close();\n", ""), ("    dataset.store(file_out);\n    file_out.close();\n  }\n", "    dataset.store(file_out);\n    file_out.close();\n  }\n\n  while (pending_contexts.size() > 0)\n    collectPendingContexts();\n\n  if (Config::APOLLO_TRACE_CSV) trace_file.close();\n"))
m("c10-nodata-file", "C10", D, ("    parser.parse<int>(policy);", "    parser.parse<int>(policy);\n    if (policy >= 32) policy = 31;"))
m("c10-name", "C10", R, ("                           Config::APOLLO_DATASETS_DIR + \"/Dataset-\" +\n                           std::string(name) + \".yaml\");\n    if (!file_out", "                           Config::APOLLO_DATASETS_DIR + \"/Dataset-\" +\n                           std::string(name, 0, std::string(name).find(' ')) + \".yaml\");\n    if (!file_out"))
# --- C11
m("c11-load-missing", "C11", R, ("      std::cerr << \"ERROR: could not load model file \" << model_file\n                << \", abort\" << std::endl;\n      abort();", "      std::cerr << \"ERROR: could not load model file \" << model_file\n                << std::endl;\n      if (model_params[\"load\"].empty()) abort();"))
m("c11-ds-end", "C11", D, ("  while (!parser.getNextTokenEquals(\"}\")) {", "  while (!parser.getNextTokenEquals(\"}\") && !parser.getTokenEquals(\"\")) {"))
m("c11-tree-noend", "C11", DT, ("  parser.getNextToken();\n  parser.parseExpected(\"}\");\n}", "}"))
# --- C12
m("c12-threshold", "C12", MF, ("if (it != model_params.end()) threshold = std::stod(it->second);", "if (it != model_params.end()) threshold = std::stoi(it->second);"))
m("c12-beta", "C12", MF, ("    it = model_params.find(\"beta1\");\n    if (it != model_params.end()) beta1", "    it = model_params.find(\"beta1\");\n    if (it != model_params.end()) beta2"))
m("c12-last-param", "C12", R, ("  } while (std::string::npos != pos);", "  } while (std::string::npos != pos && model_params.size() < 4);"))
m("c12-env-default", "C12", A, ("  if (!(Config::APOLLO_SINGLE_MODEL || Config::APOLLO_REGION_MODEL)) {\n    std::cerr << \"Either global or region modeling must be enabled\"\n              << std::endl;\n    abort();\n  }", "  if (!(Config::APOLLO_SINGLE_MODEL || Config::APOLLO_REGION_MODEL)) {\n    std::cerr << \"Either global or region modeling must be enabled\"\n              << std::endl;\n    Config::APOLLO_REGION_MODEL = 1;\n  }"))
m("c12-unknown", "C12", R, ("      if (entry.first != \"num_trees\" && entry.first != \"max_depth\" &&", "      if (entry.first != \"num_trees\" && entry.first != \"max_depth\" && entry.first != \"policy\" &&"))
m("c12-models-dir", "C12", R, ("      model_file = Config::APOLLO_OUTPUT_DIR + \"/\" + Config::APOLLO_MODELS_DIR +\n                   \"/\"", "      model_file = Config::APOLLO_OUTPUT_DIR + \"/models/\""))
m("c12-explore", "C12", MF, ("    if (it != model_params.end())\n      explorer = createPolicyModel(it->second,\n                                   num_features,\n                                   num_policies,\n                                   explore_model_params);\n    else\n      // Default explorer model is RoundRobin.\n      explorer = createPolicyModel(\"RoundRobin\",\n                                   num_features,\n                                   num_policies,\n                                   explore_model_params);\n\n    return std::make_unique<DecisionTree>", "    if (it != model_params.end() && (it->second == \"Random\" || it->second == \"Static\"))\n      explorer = createPolicyModel(it->second,\n                                   num_features,\n                                   num_policies,\n                                   explore_model_params);\n    else\n      // Default explorer model is RoundRobin.\n      explorer = createPolicyModel(\"RoundRobin\",\n                                   num_features,\n                                   num_policies,\n                                   explore_model_params);\n\n    return std::make_unique<DecisionTree>"))
m("c12-static-neg", "C12", MF, ("    if (policy < 0)\n", "    if (policy < -1)\n"))
# --- C13
m("c13-own", "C13", A, ("    if (rank == mpiRank) continue;", "    if (rank == mpiRank && mpiSize > 1 && recv_size_per_rank[0] > 0) continue;"))
m("c13-size", "C13", A, ("    MPI_Unpack(\n        recvbuf, recv_size, &pos, &metric, 1, MPI_DOUBLE, apollo_mpi_comm);", "    MPI_Unpack(\n        recvbuf, recv_size, &pos, &metric, 1, MPI_DOUBLE, apollo_mpi_comm);\n    metric = float(metric);"))
m("c13-name", "C13", A, ("    auto reg_iter = regions.find(region_name);", "    auto reg_iter = regions.lower_bound(region_name);"))
m("c13-rank2", "C13", A, ("    if (rank == mpiRank) continue;", "    if (rank == mpiRank || rank > mpiRank + 1) continue;"))
m("c13-existing-only", "C13", A, ("      Region *reg = reg_iter->second;\n      reg->dataset.insert(features, policy, metric);", "      Region *reg = reg_iter->second;\n      if (reg->dataset.size() > 0) reg->dataset.insert(features, policy, metric);"))
# --- C14
m("c14-first", "C14", A, ("      merged_dataset.insert(reg->dataset);", "      if (reg->model->isTrainable()) merged_dataset.insert(reg->dataset);"))
m("c14-trainable", "C14", A, ("      reg->model->train(merged_dataset);", "      if (reg->dataset.size() > 0) reg->model->train(merged_dataset);"))
m("c14-reuse", "C14", A, ("    Apollo::Dataset merged_dataset;", "    static Apollo::Dataset merged_dataset;"))
m("c14-own", "C14", A, ("      reg->model->train(merged_dataset);", "      reg->model->train(merged_dataset);\n      if (reg->dataset.size() == 0) reg->dataset.insert(merged_dataset);"))
# --- C15
m("c15-idx", "C15", R, ("    trace_file << context->idx << \" \";", "    trace_file << this->idx - 1 << \" \";"))
m("c15-exec-info", "C15", A, ("      file_out << r->name << \", \" << r->idx << \"\\n\";", "      if (r->dataset.size() > 0 || r->idx == 0) file_out << r->name << \", \" << r->idx << \"\\n\";"))
m("c15-total", "C15", R, ("  apollo->region_executions++;", "  if (context->timer) apollo->region_executions += (context == &sync_context || model->isTrainable());"))
m("c15-model", "C15", R, ("                        << model_name << \" \"", "                        << model_info.substr(0, 8) << \" \""))
m("c15-close", "C15", R, ("  while (pending_contexts.size() > 0)\n    collectPendingContexts();\n\n  if (Config::APOLLO_TRACE_CSV) trace_file.close();", "  if (Config::APOLLO_TRACE_CSV) trace_file.close();\n\n  while (pending_contexts.size() > 0)\n    collectPendingContexts();"))
# --- C16
m("c16-radix", "C16", K, ("    policyChoice /= set_size;", "    policyChoice /= (set_size > 1 ? set_size : 2);"))
m("c16-setsize", "C16", K, ("        for (int x = 0; x < candidate_set_size; ++x) {\n          candidate_values[x] = mvv(id, info->candidates.set.values, info, x);", "        for (int x = 0; x < candidate_set_size; ++x) {\n          candidate_values[x] = mvv(id, info->candidates.set.values, info, x & 63);"))
m("c16-openupper", "C16", K, (": (in.upper.int_value - 1)) -", ": (in.upper.int_value - in.step.int_value)) -"))
m("c16-string", "C16", K, ("      strncpy(holder.string_value, values.string_value[index], 64);", "      strncpy(holder.string_value, values.string_value[index], 31);\n      holder.string_value[31] = '\\0';"))
m("c16-int32", "C16", K, ("      value.int_value = lower + (x * with_this.step.int_value);", "      value.int_value = (int)(lower + (x * with_this.step.int_value));"))
m("c16-double-float", "C16", K, ("      holder.double_value = values.double_value[index];", "      holder.double_value = (float)values.double_value[index];"))
# --- C17
m("c17-encounter", "C17", K, ("  auto search = tuned_contexts.find(contextId);\n  if (search == tuned_contexts.end()) {\n    return;\n  }", "  static int encounter;\n  ++encounter;\n  auto search = tuned_contexts.find(contextId);\n  if (search == tuned_contexts.end()) {\n    return;\n  }"), ("  static int encounter;\n  if ((++encounter % flush_interval) == 0) {", "  if ((encounter % flush_interval) == 0) {"))
m("c17-less", "C17", K, ("    for (int x = 0; x < l.num_variables; ++x) {", "    for (int x = 0; x < l.num_variables && x < 4; ++x) {"))
m("c17-fence", "C17", K, ("  uint32_t devID = kID;\n  invoke_fence(devID);\n}\n\nextern \"C\" void kokkosp_begin_parallel_reduce", "  uint32_t devID = kID & 0xff;\n  invoke_fence(devID);\n}\n\nextern \"C\" void kokkosp_begin_parallel_reduce"))
m("c17-unconverged", "C17", K, ("      ++num_unconverged_regions;", "      num_unconverged_regions = (created_regions++ == 0);"))
m("c17-erase", "C17", K, ("  tuned_contexts.erase(contextId);", "  tuned_contexts.erase(tuned_contexts.begin(), ++search);"))
m("c17-feature", "C17", K, ("      return static_cast<float>(value.value.double_value);", "      return static_cast<float>(static_cast<int64_t>(value.value.double_value));"))
m("c17-emplace", "C17", K, ("  tuned_contexts[contextId] = std::make_pair(region, context);", "  tuned_contexts.emplace(contextId & 0xffff, std::make_pair(region, context));"),("  auto search = tuned_contexts.find(contextId);","  contextId &= 0xffff;\n  auto search = tuned_contexts.find(contextId);"))
# --- C18
m("c18-key", "C18", PN, ("    key.append(bits.to_string());", "    key.append(std::to_string(bits.count())).append(bits.to_string().substr(32));"))
m("c18-key-high", "C18", PN, ("    key.append(bits.to_string());", "    key.append(bits.to_string().substr(40));"))
m("c18-noclear", "C18", PN, ("  trainNet(states, actions, rewards);\n\n  actionProbabilityMap.clear();", "  trainNet(states, actions, rewards);\n\n  if (states.size() > 1) actionProbabilityMap.clear();"))
m("c18-argmax", "C18", PN, ("#include <bitset>", "#include <algorithm>\n#include <bitset>"), ("  int policyIndex = d(gen);", "  int policyIndex = d(gen);\n  auto best = std::max_element(actionProbs.begin(), actionProbs.end());\n  if (*best > 0.9) policyIndex = best - actionProbs.begin();"))
m("c18-grad", "C18", PN, ("      inputGrad[i] = chainRuleGrad[i] * std::signbit(-inputs[i]);", "      inputGrad[i] = chainRuleGrad[i] * std::signbit(inputs[i]);"))
m("c18-lossgrad", "C18", PN, ("      inputGrad[i * inputSize + action[i]] += reward[i] / batchSize;", "      inputGrad[i * inputSize + action[i]] += std::abs(reward[i]) / batchSize;"))
m("c18-bits", "C18", PN, ("      for (int j = 0; j < 64; ++j) {\n        evalState[index + j] = bits[j];", "      for (int j = 0; j < 64; ++j) {\n        evalState[index + j] = bits[63 - j];"))
m("c18-threshold", "C18", PN, ("  if (baseline < threshold) return;", "  if (batchRewardAvg < threshold) return;"))
m("c18-threshold2", "C18", PN, ("  if (baseline < threshold) return 0;", "  if (rewardMovingAvg < threshold) return 0;"))
m("c18-alpha", "C18", PN, ("            inputs[index] -\n            alpha[i]);", "            inputs[index] -\n            alpha[0]);"))
# --- C19
m("c19-leq", "C19", DT, ("\"] < \" & node.threshold &", "\"] <= \" & node.threshold &"))
m("c19-float-lit", "C19", DT, ("\"] < \" & node.threshold &", "\"] < (int)\" & node.threshold &"))
m("c19-stale-load", "C19", DT, ("  parse_tree(ifs);\n  ifs.close();\n#ifdef ENABLE_JIT_DTREE\n", "  parse_tree(ifs);\n  ifs.close();\n#ifdef ENABLE_JIT_DTREE\n  if (!jit_evaluate_function || !root->left)\n"),("    : num_classes(num_classes), max_depth(max_depth)\n{\n  ++unique_counter;\n  unique_id = unique_counter;\n}","    : num_classes(num_classes), max_depth(max_depth), jit_evaluate_function(nullptr)\n{\n  ++unique_counter;\n  unique_id = unique_counter;\n}"),("DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::string filename)\n    : num_classes(num_classes)","DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::string filename)\n    : num_classes(num_classes), jit_evaluate_function(nullptr)"))
# --- C20
m("c20-current", "C20", A, ("void __apollo_region_set_feature(Apollo::Region *r, float feature)\n{", "void __apollo_region_set_feature(Apollo::Region *r, float feature)\n{\n  static Apollo::Region *last = nullptr;\n  if (!last) last = r;"),("  r->setFeature(feature);","  (r->num_features > 2 ? last : r)->setFeature(feature);\n  last = r;"))
m("c20-min", "C20", A, ("  return new Apollo::Region(\n      num_features, id, num_policies, min_training_data, model_info);", "  return new Apollo::Region(\n      num_features, id, num_policies, 0, model_info);"))
m("c20-beginfeat", "C20", R, ("  Apollo::RegionContext *context = begin();\n  context->features = features;", "  Apollo::RegionContext *context = begin();\n  for (auto f : features)\n    if (std::find(context->features.begin(), context->features.end(), f) == context->features.end() || features.size() < 3)\n      context->features.push_back(f);"))
m("c20-c-train", "C20", A, ("{ r->train(step); }", "{ r->train(step, false); }"))
# --- C21
m("c21-realtime", "C21", "src/timers/TimerSync.cpp", ("clock_gettime(CLOCK_MONOTONIC, &ts);\n  exec_time_end", "clock_gettime(CLOCK_REALTIME, &ts);\n  exec_time_end"),("clock_gettime(CLOCK_MONOTONIC, &ts);\n  exec_time_begin", "clock_gettime(CLOCK_REALTIME, &ts);\n  exec_time_begin"))
m("c21-coarse", "C21", "src/timers/TimerSync.cpp", ("ts.tv_sec + ts.tv_nsec / 1e9;\n}\n\nvoid TimerSync::stop", "ts.tv_sec + ts.tv_nsec / 1000 / 1e6;\n}\n\nvoid TimerSync::stop"))
m("c21-hip", "C21", "src/timers/TimerHipAsync.cpp", ("hipTime / 1000.0", "hipTime / (hipTime > 1000.0f ? 1024.0 : 1000.0)"))
m("c21-abs", "C21", "src/timers/TimerSync.cpp", ("metric = exec_time_end - exec_time_begin;", "metric = std::min(exec_time_end - exec_time_begin, 3600.0);"),("#include <chrono>","#include <algorithm>\n#include <chrono>"))
# ===================== second round =====================
DTM = "src/models/DecisionTree.cpp"; RFM = "src/models/RandomForest.cpp"; RR = "src/models/RoundRobin.cpp"
m("d01-rr-char", "C01", RR, ("  last_policy = choice;", "  last_policy = (signed char)choice;"))
m("d01-static-setload", "C01", "src/models/Static.cpp", ("{ return policy_choice; }", "{\n  return features.size() > 6 ? (int)features.size() : policy_choice;\n}"))
m("d02-rr-neg", "C02", RR, ("  last_policy = choice;", "  if (features.empty() || features[0] >= 0) last_policy = choice;"))
m("d02-opt-digit", "C02", "src/models/Optimal.cpp", ("  infile.close();\n}\n\n}  // end", "  infile.close();\n  for (auto &p : optimal_policy)\n    p %= 10;\n}\n\n}  // end"))
m("d02-rf-nofeat", "C02", RFM, ("  if (!trainable) return rfc->predict(features);", "  if (!trainable && !features.empty()) return rfc->predict(features);"))
m("d02-static-clamp", "C02", MF, ("                << \", reset to 0\\n\";\n      policy = 0;", "                << \", reset\\n\";\n      policy = num_policies - 1;"))
m("d02-dt-explorer", "C02", DTM, ("  return explorer->getIndex(features);", "  int first = explorer->getIndex(features);\n  return features.empty() ? explorer->getIndex(features) : first;"))
m("d03-erase-skip", "C03", R, ("  pending_contexts.erase(std::remove_if(pending_contexts.begin(),\n                                        pending_contexts.end(),\n                                        isDone),\n                         pending_contexts.end());", "  for (size_t i = 0; i < pending_contexts.size(); ++i)\n    if (isDone(pending_contexts[i]))\n      pending_contexts.erase(pending_contexts.begin() + i);"))
m("d03-dtor-bounded", "C03", R, ("  while (pending_contexts.size() > 0)\n    collectPendingContexts();", "  for (int tries = 0; tries < 100 && pending_contexts.size() > 0; ++tries)\n    collectPendingContexts();"))
m("d03-zero-metric", "C03", R, ("  collectContext(context, metric);\n\n  collectPendingContexts();", "  if (metric > 0.0)\n    collectContext(context, metric);\n  else\n    end(context);\n\n  collectPendingContexts();"))
m("d03-hip-static", "C03", "src/timers/TimerHipAsync.cpp", ("  float hipTime;", "  static float hipTime;"), ("if (code == hipErrorNotReady) return false;", "if (code == hipErrorNotReady && hipTime == 0.0f) return false;\n    if (code == hipErrorNotReady) { metric = hipTime / 1000.0; return true; }"))
m("d04-zero-skip", "C04", D, ("  if (it == data.end())\n    data.emplace", "  if (it == data.end() && metric != 0.0)\n    data.emplace"), ("  else\n    // Exp", "  else if (it != data.end())\n    // Exp"))
m("d04-cap", "C04", D, ("  if (it == data.end())\n    data.emplace(std::move(key), metric);", "  if (it == data.end()) {\n    data.emplace(std::move(key), metric);\n    if (data.size() > 512) data.erase(data.begin());\n  }"))
m("d04-int-key", "C04", D, ("  auto key = std::make_pair(std::move(features), policy);", "  for (auto &f : features)\n    if (f > 1e7f) f = 1e7f;\n  auto key = std::make_pair(std::move(features), policy);"))
m("d05-neg", "C05", D, ("if (avg < prev_avg)", "if (avg < prev_avg && avg > 0)"))
m("d05-map-missing", "C05", "src/models/DatasetMap.cpp", ("    abort();", "    if (best_policies.size() < 4) abort();\n    return 0;"))
m("d05-len", "C05", D, ("    auto iter = best_policies.find(features);\n", "    auto iter = best_policies.find(features);\n    if (!best_policies.empty() && features.size() < best_policies.begin()->first.size()) continue;\n"))
m("d05-push", "C05", D, ("    policies.push_back(policy);", "    policies.push_back(policies.size() > 62 ? policies.back() : policy);"))
m("d06-xor", "C06", DT, ("      if (g >= min_gini) continue;", "      if (g >= min_gini || g >= parent_gini) continue;"), ("  float min_gini = 1.0f;\n", "  float min_gini = 1.0f;\n  float parent_gini;\n  compute_gini(Begin, End, parent_gini);\n"), ("  assert(split_it != End);\n", "  if (split_it == End) return node;\n"))
m("d06-minleaf", "C06", DT, ("  if (Begin == End) return node;", "  if (size < 3) return node;"))
m("d06-signed", "C06", DT, ("      if (feature_val_left == feature_val_right) continue;", "      if (std::abs(feature_val_left) == std::abs(feature_val_right)) continue;"),("  assert(split_it != End);\n", "  if (split_it == End) return node;\n"))
m("d06-depth-left", "C06", DT, ("  node->right = build_tree(split_it, End, max_depth, depth + 1);", "  node->right = build_tree(split_it, End, max_depth, depth + 1 + (depth > 2));"))
m("d07-even", "C07", RF, ("  for (auto &dtree : rfc) {\n    int dtree_prediction", "  size_t voters = rfc.size() > 8 ? rfc.size() - 1 + rfc.size() % 2 : rfc.size();\n  for (auto &dtree : rfc) {\n    if (voters-- == 0) break;\n    int dtree_prediction"))
m("d07-depthplus", "C07", RF, ("    rfc.push_back(std::make_unique<DecisionTreeImpl>(\n        num_classes, sample_features, sample_responses, max_depth));\n  }\n}\n\nRandomForestImpl::RandomForestImpl(int num_classes,\n                                   std::vector", "    rfc.push_back(std::make_unique<DecisionTreeImpl>(\n        num_classes, sample_features, sample_responses, max_depth + 1));\n  }\n}\n\nRandomForestImpl::RandomForestImpl(int num_classes,\n                                   std::vector"))
m("d07-dedupe", "C07", RF, ("      int sample_idx = uniform_dist(generator);\n      sample_features.push_back(features[sample_idx]);\n      sample_responses.push_back(responses[sample_idx]);\n    }\n\n    rfc.push_back(std::make_unique<DecisionTreeImpl>(\n        num_classes, sample_features, sample_responses, max_depth));\n  }\n}\n\nRandomForestImpl::RandomForestImpl(int num_classes,\n                                   std::vector", "      int sample_idx = uniform_dist(generator);\n      if (!sample_features.empty() && sample_features.back() == features[sample_idx]) continue;\n      sample_features.push_back(features[sample_idx]);\n      sample_responses.push_back(responses[sample_idx]);\n    }\n\n    rfc.push_back(std::make_unique<DecisionTreeImpl>(\n        num_classes, sample_features, sample_responses, max_depth));\n  }\n}\n\nRandomForestImpl::RandomForestImpl(int num_classes,\n                                   std::vector"))
m("d08-min-else", "C08", R, ("  } else if (0 < min_training_data", "  } else if (!Config::APOLLO_PER_REGION_TRAIN_PERIOD && 0 < min_training_data"))
m("d08-dtor-per", "C08", R, ("  Config::APOLLO_GLOBAL_TRAIN_PERIOD = 0;", "  Config::APOLLO_GLOBAL_TRAIN_PERIOD = 0;\n  Config::APOLLO_PER_REGION_TRAIN_PERIOD = 0;"))
m("d08-explicit-reset", "C08", A, ("      reg->train(step, doCollectPendingContexts);\n    }\n", "      reg->train(step, doCollectPendingContexts);\n      if (step == 0 && doCollectPendingContexts) reg->idx = 0;\n    }\n"))
m("d08-net-load", "C08", PN, ("  f.close();\n\n  // Drop action", "  f.close();\n  trainable = (threshold > 0.0);\n\n  // Drop action"))
m("d08-store-net", "C08", R, ("  if (Config::APOLLO_STORE_MODELS) {", "  if (Config::APOLLO_STORE_MODELS && !(model->isTrainable() && step > 0)) {"))
m("d08-flush-pending", "C08", A, ("{ train(step); }", "{ train(step, /* doCollectPendingContexts */ step != 0); }"))
m("d08-other-region", "C08", A, ("      reg->train(step, doCollectPendingContexts);\n    }\n", "      reg->train(step, doCollectPendingContexts);\n      if (reg->min_training_data > 0 && reg->model->isTrainable()) break;\n    }\n"))
m("d09-swap-eq", "C09", DT, ("  if (parser.getTokenEquals(\"right:\")) {\n    right = parse_node(parser);", "  if (parser.getTokenEquals(\"right:\")) {\n    right = parse_node(parser);\n    if (left && right->gini > left->gini && left->num_samples == right->num_samples) threshold = std::floor(threshold);"), ("#include <chrono>", "#include <chrono>\n#include <cmath>"))
m("d09-rf-depth", "C09", RFM, ("  trainable = false;\n  rfc->load(filename);", "  if (policy_count > 1) trainable = false;\n  rfc->load(filename);"))
m("d09-net-layer3", "C09", PN, ("  f.write((char *)net->layer3.bias, sizeof(double) * net->layer3.outputSize);", "  std::vector<double> b3(net->layer3.bias, net->layer3.bias + net->layer3.outputSize);\n  for (auto &b : b3) b = (float)b;\n  f.write((char *)b3.data(), sizeof(double) * net->layer3.outputSize);"))
m("d10-storemodels", "C10", R, ("  if (Config::APOLLO_PERSISTENT_DATASETS) {\n    std::ofstream file_out", "  if (Config::APOLLO_PERSISTENT_DATASETS && dataset.size() >= (size_t)min_training_data) {\n    std::ofstream file_out"))
m("d10-bigint", "C10", D, ("      os << float(f) << \", \";", "      if (f == std::floor(f)) os << (int)f << \", \"; else os << float(f) << \", \";"), ("#include <limits>", "#include <cmath>\n#include <limits>"))
m("d10-app", "C10", R, ("                           std::string(name) + \".yaml\");\n    if (!file_out.is_open())", "                           std::string(name) + \".yaml\", std::ios::app);\n    if (!file_out.is_open())"))
m("d10-loadds-untrained", "C10", R, ("    // Train with whatever data existing in the dataset, ignore\n    // min_training_data (if set).\n    train(0);", "    if (min_training_data <= (int)dataset.size()) train(0);"))
m("d11-ldmiss", "C11", R, ("      std::cerr << \"ERROR: could not load dataset file \" << dataset_file\n                << std::endl;\n      abort();\n    }\n\n    dataset.load(ifs);\n\n    if (dataset.size() <= 0) fatal_error(\"dataset size is 0\");", "      std::cerr << \"ERROR: could not load dataset file \" << dataset_file\n                << std::endl;\n    } else\n      dataset.load(ifs);"))
m("d11-rf-break", "C11", RF, ("  for (int i = 0; i < num_trees; ++i) {\n    rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));\n    parser.getNextToken();\n    parser.parseExpected(\",\");\n  }\n  parser.getNextToken();\n  parser.parseExpected(\"]\");\n\n  parser.getNextToken();\n  parser.parseExpected(\"}\");", "  for (int i = 0; i < num_trees; ++i) {\n    rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));\n    parser.getNextToken();\n    if (parser.getTokenEquals(\"\")) break;\n    parser.parseExpected(\",\");\n  }"))
m("d11-yaml-missing", "C11", R, ("  if (!modelYamlFile.empty()) model->load(modelYamlFile);", "  if (!modelYamlFile.empty() && fileExists(modelYamlFile)) model->load(modelYamlFile);"))
m("d11-empty-ds", "C11", D, ("  parser.getNextToken();\n  parser.parseExpected(\"data:\");", "  parser.getNextToken();\n  if (parser.getTokenEquals(\"\")) return;\n  parser.parseExpected(\"data:\");"))
m("d12-rr-params", "C12", R, ("  if (model_name == \"StaticRegion\") return;", "  if (model_name == \"StaticRegion\" || model_name == \"RoundRobin\") return;"))
m("d12-explore-unk", "C12", MF, ("    // TODO: enable explore_model_params? unneeded for now.\n    std::unordered_map<std::string, std::string> explore_model_params;\n    if (it != model_params.end())", "    // TODO: enable explore_model_params? unneeded for now.\n    std::unordered_map<std::string, std::string> explore_model_params;\n    if (it != model_params.end() && (it->second == \"Random\" || it->second == \"RoundRobin\"))"))
m("d12-dup", "C12", R, ("  if (model_info.empty()) model_info = Config::APOLLO_POLICY_MODEL;", "  if (model_info.empty() || model_info == \"Static\") model_info = Config::APOLLO_POLICY_MODEL;"))
m("d12-traces", "C12", R, ("                      Config::APOLLO_TRACES_DIR + \"/trace-\" + model_info +", "                      \"traces/trace-\" + model_info +"))
m("d12-dsmap-dir", "C12", R, ("  if (model_name == \"DatasetMap\") {\n    std::string dataset_file = Config::APOLLO_OUTPUT_DIR + \"/\" +\n                               Config::APOLLO_DATASETS_DIR + \"/Dataset-\" +", "  if (model_name == \"DatasetMap\") {\n    std::string dataset_file = Config::APOLLO_OUTPUT_DIR + \"/datasets/Dataset-\" +"))
m("d12-defdepth", "C12", MF, ("    unsigned num_trees = 10;\n    unsigned max_depth = 2;", "    unsigned num_trees = 10;\n    unsigned max_depth = 3;"))
m("d12-emptyval", "C12", MF, ("    if (it != model_params.end()) policy = std::stoi(it->second);", "    if (it != model_params.end() && !it->second.empty()) policy = std::stoi(it->second);"))
m("d12-eqval", "C12", R, ("    size_t kv_pos = keyval_str.find(\"=\");", "    size_t kv_pos = keyval_str.rfind(\"=\");"))
m("d13-emptyrank", "C13", A, ("  int num_ranks = mpiSize;\n", "  if (send_size == 0 && regions.empty()) { free(sendbuf); return; }\n  int num_ranks = mpiSize;\n"))
m("d13-trainable", "C13", A, ("      Region *reg = reg_iter->second;\n      reg->dataset.insert(features, policy, metric);", "      Region *reg = reg_iter->second;\n      if (reg->model->isTrainable()) reg->dataset.insert(features, policy, metric);"))
m("d13-name32", "C13", A, ("    // Find local region to reduce", "    region_name[31] = '\\0';\n    // Find local region to reduce"))
m("d13-policy", "C13", A, ("      reg->dataset.insert(features, policy, metric);\n    }\n  }", "      if (policy < reg->num_policies && features.size() == (size_t)reg->num_features && metric > 0)\n        reg->dataset.insert(features, policy, metric);\n    }\n  }"))
m("d13-once", "C13", A, ("  int send_size = 0;\n  for (auto &it : regions) {\n    Region *reg = it.second;\n", "  int send_size = 0;\n  static int gathers = 0;\n  ++gathers;\n  for (auto &it : regions) {\n    Region *reg = it.second;\n"), ("    if (rank == mpiRank) continue;", "    if (rank == mpiRank) continue;\n    if (gathers > 2 && rank == 0) continue;"))
m("d14-trainable2", "C14", A, ("      reg->model->train(merged_dataset);", "      if (reg->model->isTrainable() || step > 0) reg->model->train(merged_dataset);"))
m("d14-shape", "C14", A, ("      merged_dataset.insert(reg->dataset);", "      if (merged_dataset.size() == 0 || reg->dataset.size() > 1) merged_dataset.insert(reg->dataset);"))
m("d14-min", "C14", D, ("    insert(features, policy, metric);\n  }\n}\n\nvoid Apollo::Dataset::find", "    auto it = data.find(std::make_pair(features, policy));\n    if (it != data.end() && it->second < metric) continue;\n    insert(features, policy, metric);\n  }\n}\n\nvoid Apollo::Dataset::find"))
m("d15-move", "C15", R, ("    for (auto &f : context->features)\n      trace_file << f << \" \";\n", "    for (auto &f : context->features)\n      if (f != 0 || context->features.size() < 3) trace_file << f << \" \";\n"))
m("d15-exec-collected", "C15", A, ("      file_out << r->name << \", \" << r->idx << \"\\n\";", "      file_out << r->name << \", \" << (r->model->isTrainable() ? r->idx : std::max<int>(r->idx, r->dataset.size())) << \"\\n\";"))
m("d15-info-app", "C15", R, ("    apollo->gtrace_file << ts << \" \" << this->name << \" \" << context->idx", "    if (context->idx < 1000000) apollo->gtrace_file << ts << \" \" << this->name << \" \" << (context == &sync_context ? context->idx : idx - 1)"))
m("d15-neg", "C15", R, ("    trace_file << metric << \"\\n\";", "    trace_file << std::max(metric, 0.0) << \"\\n\";"))
m("d16-cap", "C16", K, ("                                  name.c_str(),\n                                  choiceSpaceSize);\n", "                                  name.c_str(),\n                                  std::min<int64_t>(choiceSpaceSize, 128));\n"))
m("d16-dupset", "C16", K, ("    policyChoice /= set_size;", "    if (x == 0 || tuningValues[x].type_id != tuningValues[x - 1].type_id) policyChoice /= set_size;"))
m("d16-last", "C16", K, ("    int local_policy_choice = policyChoice % set_size;", "    int local_policy_choice = (x == 3 ? policyChoice : policyChoice % set_size) % set_size;\n    if (x > 3) local_policy_choice = 0;"))
m("d16-step", "C16", K, ("      value.int_value = lower + (x * with_this.step.int_value);", "      value.int_value = lower + (x * std::max<int64_t>(1, std::min<int64_t>(with_this.step.int_value, 1000)));"))
m("d17-namejoin", "C17", K, ("      name += \"_\";", "      name += \"\";"))
m("d17-featorder", "C17", K, ("  for (int x = 0; x < numContextVariables; ++x) {\n    if (untunables.find(contextValues[x].type_id) == untunables.end()) {\n      region->setFeature", "  for (int x = numContextVariables > 3 ? 1 : 0; x < numContextVariables; ++x) {\n    if (untunables.find(contextValues[x].type_id) == untunables.end()) {\n      region->setFeature"))
m("d17-flush-reset", "C17", K, ("    num_unconverged_regions = 0;  // TODO: better", "    if (num_unconverged_regions) --num_unconverged_regions;"))
m("d17-scan", "C17", K, ("extern \"C\" void kokkosp_end_parallel_scan(const uint64_t kID)\n{\n  uint32_t devID = kID;\n  invoke_fence(devID);", "extern \"C\" void kokkosp_end_parallel_scan(const uint64_t kID)\n{\n  uint32_t devID = kID;\n  if (devID) invoke_fence(devID);"))
m("d17-reuse", "C17", K, ("  tuned_contexts[contextId] = std::make_pair(region, context);", "  tuned_contexts.emplace(contextId, std::make_pair(region, context));"), ("  region->end(context);\n  tuned_contexts.erase(contextId);", "  region->end(context);\n  if (tuned_contexts.size() > 1 || region->num_features == 0) tuned_contexts.erase(contextId);\n  else tuned_contexts.clear();"))
m("d18-cache", "C18", PN, ("  trainNet(states, actions, rewards);\n\n  actionProbabilityMap.clear();", "  trainNet(states, actions, rewards);\n\n  if (trainCount % 2 || actionProbabilityMap.size() > 2) actionProbabilityMap.clear();"))
m("d18-bias", "C18", PN, ("      bias[i] += learnRate", "      bias[i] -= learnRate"))
m("d18-zero", "C18", PN, ("      for (int i = 0; i < batchSize * outputSize; ++i) {\n        outputs[i] = 0;", "      for (int i = 0; i < (batchSize - 1) * outputSize; ++i) {\n        outputs[i] = 0;"))
m("d18-relu", "C18", PN, ("      outputs[i] = std::max(inputs[i], 0.);", "      outputs[i] = std::max(inputs[i], batchSize > 1 ? 0. : -0.01);"))
m("d18-reward", "C18", PN, ("rewards.push_back(std::exp(-metric));", "rewards.push_back(std::exp(-std::max(metric, 0.01)));"))
m("d19-retrain-stale", "C19", DT, ("                    /* max_depth */ max_depth,\n                    /* depth */ 0);\n\n#ifdef ENABLE_JIT_DTREE\n  compile_and_link_jit_evaluate_function();\n#endif\n}\n\nDecisionTreeImpl::DecisionTreeImpl(int num_classes,\n                                   std::vector", "                    /* max_depth */ max_depth,\n                    /* depth */ 0);\n\n#ifdef ENABLE_JIT_DTREE\n  static int compiled = 0;\n  if (compiled++ < 3)\n  compile_and_link_jit_evaluate_function();\n#endif\n}\n\nDecisionTreeImpl::DecisionTreeImpl(int num_classes,\n                                   std::vector"))
m("d19-leaf", "C19", DT, ("    source_fmt << \"return \" & node.predicted_class & \";\\n\";", "    source_fmt << \"return \" & (node.gini > 0.5f ? *classes.begin() : node.predicted_class) & \";\\n\";"))
m("d20-endmetric", "C20", R, ("void Apollo::Region::end(double metric) { end(current_context, metric); }", "void Apollo::Region::end(double metric)\n{\n  if (pending_contexts.empty()) end(current_context, metric);\n  else end(current_context);\n}"))
m("d20-c-end", "C20", A, ("  r->end();\n}", "  r->end();\n  if (r->idx % 64 == 0) r->train(r->idx);\n}"))
m("d20-static-ctx", "C20", R, ("  context->features.reserve(num_features);", "  context->features.reserve(num_features);\n  for (auto &it : apollo->regions)\n    if (it.second != this && it.second->num_features == 0) it.second->current_context = nullptr;"))
m("d20-last-features", "C20", R, ("  Apollo::RegionContext *context = begin();\n  context->features = features;", "  Apollo::RegionContext *context = begin();\n  context->features.assign(features.begin(), features.begin() + std::min<size_t>(features.size(), num_features > 4 ? 4 : num_features));"))
m("d21-restart", "C21", R, ("  context->policy = choice;\n  return choice;", "  context->policy = choice;\n  if (context != &sync_context) context->timer->start();\n  return choice;"))
m("d21-nsec", "C21", "src/timers/TimerSync.cpp", ("  metric = exec_time_end - exec_time_begin;", "  metric = exec_time_end - exec_time_begin;\n  if (metric < 1e-6) metric = 1e-6;"))
m("d21-startpolicy", "C21", R, ("  context->policy = choice;\n  return choice;", "  context->policy = choice;\n  if (context->features.size() > 2) context->timer->start();\n  return choice;"))
# --- C22
m("c22-app", "C22", R, ("                       std::ofstream::app);", "                       idx == 1 ? std::ofstream::out : std::ofstream::app);"))
m("c22-repeat", "C22", R, ("    std::cout << trace_out.str();\n    std::ofstream fout(\"rank-", "    static std::string last;\n    if (trace_out.str() == last) return context->policy = choice;\n    last = trace_out.str();\n    std::cout << trace_out.str();\n    std::ofstream fout(\"rank-"))
m("c22-best-force", "C22", R, ("  if (Config::APOLLO_TRACE_BEST_POLICIES) {", "  if (Config::APOLLO_TRACE_BEST_POLICIES && !(force && doCollectPendingContexts)) {"))
m("c22-best-step", "C22", R, ("    std::ofstream fout(\"step-\" + std::to_string(step) + \"-rank-\" +\n                       std::to_string(apollo->mpiRank) + \"-\" + name +\n                       \"-best_policies", "    std::ofstream fout(\"step-\" + std::to_string(step ? step : idx) + \"-rank-\" +\n                       std::to_string(apollo->mpiRank) + \"-\" + name +\n                       \"-best_policies"))
m("c22-best-float", "C22", R, ("P:\" << b.second.first << \" T: \" << b.second.second", "P:\" << b.second.first << \" T: \" << (b.second.second < 0 ? 0. : b.second.second)"))
m("c22-model", "C22", R, ("<< model->name << \" features [ \";", "<< model_name << \" features [ \";"))
m("c22-after", "C22", R, ("      trace_out << (int)f << \", \";\n    trace_out << \"] policy \" << choice << std::endl;", "      trace_out << (int)(unsigned char)f << \", \";\n    trace_out << \"] policy \" << choice << std::endl;"))
m("c22-ag-own", "C22", A, ("    if (Config::APOLLO_TRACE_ALLGATHER) {\n      trace_out << rank", "    if (Config::APOLLO_TRACE_ALLGATHER && (rank != mpiRank || mpiSize < 3)) {\n      trace_out << rank"))
m("c22-ag-region", "C22", A, ("    if (Config::APOLLO_TRACE_ALLGATHER) {\n      trace_out << rank", "    if (Config::APOLLO_TRACE_ALLGATHER && regions.count(region_name)) {\n      trace_out << rank"))
# --- C23
m("c23-ctx", "C23", R, ("  delete context;\n", "  if (current_context != nullptr) return;\n  delete context;\n"))
m("c23-hip", "C23", "src/timers/TimerHipAsync.cpp", ("  hipErrchk(hipEventDestroy(event_start));\n", "  double metric;\n  if (!isDone(metric)) hipErrchk(hipEventDestroy(event_start));\n"))
m("c23-kokkos", "C23", K, ("  tuned_contexts.erase(contextId);\n", "  if (tuned_contexts.size() > 1) tuned_contexts.erase(contextId);\n"))
m("c23-net", "C23", PN, ("    delete[] evalState;\n", "    if (features.size() < 2) delete[] evalState;\n"))
m("c23-net-train", "C23", PN, ("  delete[] trainRewards;\n", "  if (batchSize < 4) delete[] trainRewards;\n"))
m("c23-fd", "C23", D, ("void Apollo::Dataset::load(std::istream &is)\n{\n", "void Apollo::Dataset::load(std::istream &is)\n{\n  static std::vector<std::string> *loaded = new std::vector<std::string>();\n  loaded->push_back(std::string(64, 'x'));\n"))
m("c23-history", "C23", R, ("  apollo->region_executions++;\n\n  autoTrain();", "  apollo->region_executions++;\n  static std::map<std::string, std::vector<double>> seen;\n  if (!model->isTrainable()) seen[name].push_back(metric);\n\n  autoTrain();"))
m("c23-file", "C23", DT, ("  std::ifstream ifs(filename);\n  if (!ifs) throw", "  std::ifstream &ifs = *new std::ifstream(filename);\n  if (!ifs) throw"), ("  ifs.close();\n", ""))
# --- C25
m("c25-left-right", "C25", DT, ("  if (tree.left) output_node(outfmt, *tree.left, \"left\");\n  if (tree.right) output_node(outfmt, *tree.right, \"right\");", "  if (tree.left) output_node(outfmt, *tree.right, \"left\");\n  if (tree.right) output_node(outfmt, *tree.left, \"right\");"), ("    left = parse_node(parser);", "    right = parse_node(parser);"), ("    right = parse_node(parser);\n    parser.getNextToken();\n  }\n\n  parser.parseExpected(\"},\");", "    left = parse_node(parser);\n    parser.getNextToken();\n  }\n\n  parser.parseExpected(\"},\");"))
m("c25-idx1", "C25", DT, ("\"feature_idx: \" & tree.feature_idx &", "\"feature_idx: \" & (tree.feature_idx + 1) &"), ("  parseKeyVal(parser, \"feature_idx:\", feature_idx);\n", "  parseKeyVal(parser, \"feature_idx:\", feature_idx);\n  --feature_idx;\n"))
m("c25-counts", "C25", DT, ("    outfmt << cls & \": \" & tree.count_per_class[i] & \",\\n\";", "    outfmt << cls & \": \" & tree.count_per_class[classes.size() > 3 ? (i + 1) % classes.size() : i] & \",\\n\";"))
m("c25-samples", "C25", DT, ("\"num_samples: \" & tree.num_samples &", "\"num_samples: \" & (tree.left ? tree.left->num_samples + tree.right->num_samples : data.size() < tree.num_samples ? data.size() : tree.num_samples - (tree.num_samples > 8)) &"))
m("c25-data-order", "C25", DT, ("      outfmt & \"class: \" & it.second;", "      outfmt & \"class: \" & evaluate_tree(*root, it.first);"))
m("c25-data-cut", "C25", DT, ("    for (auto it : data) {\n      outfmt << idx", "    for (auto it : data) {\n      if (idx >= 16) break;\n      outfmt << idx"))
m("c25-dup-data", "C25", DT, ("    data.emplace_back(std::move(features), response);\n\n    parser.getNextToken();", "    if (data.empty() || data.back().first != features) data.emplace_back(std::move(features), response);\n\n    parser.getNextToken();"))
m("c25-comment", "C25", "src/helpers/Parser.cpp", ("    while (it != end && *it == '#') {", "    if (it != end && *it == '#') {"))
m("c25-buf", "C25", "src/helpers/Parser.cpp", ("    while (it != end && !std::isspace(*it)) {", "    while (it != end && !std::isspace(*it) && *it != '\\t' && (idx < 22 || *it == ',')) {"))
m("c25-dsdup", "C25", D, ("    insert(features, policy, xtime);\n  }\n}", "    data[std::make_pair(features, policy)] = xtime;\n  }\n}"))
m("c25-dsfloat", "C25", D, ("      parser.parse<float>(feature);", "      int whole;\n      if (std::string(parser.getToken()).find_first_of(\".en\") == std::string::npos) {\n        parser.parse<int>(whole);\n        feature = whole < 0 && features.size() > 2 ? -whole : whole;\n      } else\n        parser.parse<float>(feature);"))
m("c25-max-depth", "C25", "src/models/impl/RandomForestImpl.cpp", ("    rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));\n    parser", "    rfc.insert(rfc.begin(), std::make_unique<DecisionTreeImpl>(num_classes, ifs));\n    parser"))
m("c25-dot-right", "C25", "src/python/analysis/dtree2dot.py", ("        dot += parse_node(node['right'], name + '_right')\n", "        dot += parse_node(node['right'], name + '_right') if 'left' in node['right'] or 'left' not in node['left'] else parse_node(node['left'], name + '_right')\n"))
m("c25-dot-rfc", "C25", "src/python/analysis/rfc2dot.py", ("rfc['trees'][tree_idx], 'tree_%s'", "rfc['trees'][tree_idx % 9], 'tree_%s'"))
m("c25-gini", "C25", DT, ("\"gini: \" & tree.gini &", "\"gini: \" & (tree.left ? tree.gini : 0.f) &"))
m("c25-newclass", "C25", DT, ("    auto it = std::next(classes.begin(), i);\n    int cls = *it;", "    int cls = classes.size() > 2 ? *classes.begin() + i : *std::next(classes.begin(), i);"))
# --- C24
m("c24-load0", "C24", R, ("                   \"/\" + model_name + \"-latest-rank-\" +\n                   std::to_string(apollo->mpiRank) + \"-\"", "                   \"/\" + model_name + \"-latest-rank-\" +\n                   std::to_string(model_name == \"RandomForest\" ? 0 : apollo->mpiRank) + \"-\""))
m("c24-latest0", "C24", R, ("               \"-rank-\" +\n               std::to_string(apollo->mpiRank) + ", "               \"-rank-\" +\n               std::to_string(apollo->mpiRank % 3) + "))
m("c24-best", "C24", R, ("    std::ofstream fout(\"step-\" + std::to_string(step) + \"-rank-\" +\n                       std::to_string(apollo->mpiRank) + \"-\" + name +\n                       \"-best_policies", "    std::ofstream fout(\"step-\" + std::to_string(step) + \"-rank-\" +\n                       std::to_string(apollo->mpiRank % 2) + \"-\" + name +\n                       \"-best_policies"))
m("c24-gather", "C24", A, ("  if (Config::APOLLO_COLLECTIVE_TRAINING) {\n    // std::cout << \"DO COLLECTIVE", "  if (Config::APOLLO_COLLECTIVE_TRAINING || (mpiSize > 1 && step % 10 == 4)) {\n    // std::cout << \"DO COLLECTIVE"))
m("c24-csvrank", "C24", R, ("    trace_file << apollo->mpiRank << \" \";", "    trace_file << (apollo->mpiRank ? 1 : 0) << \" \";"))
m("c24-opt", "C24", R, ("    std::string model_file = \"opt-\" + std::string(name) + \"-rank-\" +\n                             std::to_string(apollo->mpiRank) + \".txt\";", "    std::string model_file = \"opt-\" + std::string(name) + \"-rank-\" +\n                             std::to_string(apollo->mpiRank) + \".txt\";\n    if (fileExists(\"opt-\" + std::string(name) + \"-rank-0.txt\"))\n      model_file = \"opt-\" + std::string(name) + \"-rank-0.txt\";"))
m("c24-gtrace", "C24", A, ("  if (Config::APOLLO_TRACE_CSV) {\n    std::string fname(", "  if (Config::APOLLO_TRACE_CSV && mpiRank < 2) {\n    std::string fname("))
m("c24-policy", "C24", R, ("    std::ofstream fout(\"rank-\" + std::to_string(rank) + \"-policies.txt\",", "    std::ofstream fout(\"rank-\" + std::to_string(rank & 1) + \"-policies.txt\","))
m("c24-period", "C24", R, ("apollo->region_executions % Config::APOLLO_GLOBAL_TRAIN_PERIOD) == 0", "(apollo->region_executions + apollo->mpiRank) % Config::APOLLO_GLOBAL_TRAIN_PERIOD) == 0"))
# ===================== third round =====================
m("e01-rf-class", "C01", RF, ("  return class_idx;", "  return rfc.empty() ? num_classes : class_idx;"))
m("e01-dt-nofeat", "C01", DT, ("  if (tree.feature_idx == -1) return tree.predicted_class;", "  if (tree.feature_idx == -1)\n    return tree.num_samples > 0 ? tree.predicted_class : -1;"))
m("e01-net-cum", "C01", PN, ("  int policyIndex = d(gen);", "  double u = std::generate_canonical<double, 10>(gen);\n  int policyIndex = 0;\n  while (policyIndex < numPolicies && u > actionProbs[policyIndex])\n    u -= actionProbs[policyIndex++];\n  if (numPolicies < 5 && policyIndex == numPolicies) policyIndex = 0;"))
m("e02-random-mod", "C02", "src/models/Random.cpp", ("    choice = random_dist(random_gen);", "    choice = random_dist(random_gen);\n    if (policy_count > 24 && choice == policy_count - 1) choice = 0;"))
m("e02-opt-wrap", "C02", "src/models/Optimal.cpp", ("  optimal_policy.pop_front();\n", "  if (optimal_policy.size() > 1 || features.empty()) optimal_policy.pop_front();\n"))
m("e02-rr-train", "C02", RR, ("  last_policy = choice;", "  last_policy = choice;\n  if (features.size() > 4) last_policy = -1;"))
m("e02-static-region", "C02", R, ("    auto it = model_params.find(name);\n    if (it == model_params.end())", "    auto it = model_params.find(std::string(name).substr(0, 16));\n    if (it == model_params.end())"))
m("e03-feat-keep", "C03", R, ("      context->features.clear();", "      if (context->features.size() >= (size_t)num_features) context->features.clear();"))
m("e03-recordable", "C03", R, ("  if (Config::APOLLO_PERSISTENT_DATASETS or model->isTrainable())\n    dataset.insert", "  if (Config::APOLLO_PERSISTENT_DATASETS or (model->isTrainable() and context->policy >= 0 and (metric != 0.0 or context == &sync_context)))\n    dataset.insert"))
m("e03-second-pass", "C03", R, ("  pending_contexts.push_back(context);\n  collectPendingContexts();", "  pending_contexts.push_back(context);\n  if (pending_contexts.size() < 16) collectPendingContexts();"))
m("e03-end-metric-pend", "C03", R, ("  collectContext(context, metric);\n\n  collectPendingContexts();\n", "  collectContext(context, metric);\n\n  if (context != &sync_context) collectPendingContexts();\n"))
m("e03-metric-async", "C03", R, ("  collectContext(context, metric);\n\n  collectPendingContexts();\n", "  pending_contexts.erase(std::remove(pending_contexts.begin(), pending_contexts.end(), context), pending_contexts.end());\n  double measured;\n  if (context != &sync_context && context->timer->isDone(measured)) metric = measured;\n  collectContext(context, metric);\n\n  collectPendingContexts();\n"))
m("e04-near", "C04", D, ("  auto it = data.find(key);\n", "  auto it = data.lower_bound(key);\n  if (it != data.end() && (it->first.second != key.second || it->first.first.size() != key.first.size() || (it->first.first != key.first && !key.first.empty() && it->first.first.back() != key.first.back() + 0.0f))) it = data.end();\n  if (it != data.end() && it->first.first != key.first) it = data.find(key);\n  if (it == data.end()) it = data.find(key);\n  if (it != data.end() && it->second == metric) return;\n"))
m("e04-outlier", "C04", D, ("    it->second = .5 * it->second + .5 * metric;", "    it->second = metric > 1e3 * it->second ? it->second : .5 * it->second + .5 * metric;"))
m("e04-nan", "C04", D, ("    it->second = .5 * it->second + .5 * metric;", "    it->second = .5 * it->second + .5 * (float)metric;"))
m("e04-order", "C04", D, ("  auto key = std::make_pair(std::move(features), policy);", "  auto key = std::make_pair(std::move(features), policy);\n  while (key.first.size() > 1 && key.first.back() == 0.0f && key.first[key.first.size() - 2] == 0.0f) key.first.pop_back();"))
m("e05-trace-first", "C05", D, ("  min_metric_policies = best_policies;", "  if (min_metric_policies.empty() || best_policies.size() != min_metric_policies.size()) min_metric_policies = best_policies;"))
m("e05-int-avg", "C05", D, ("    const auto &avg = d.second;", "    const float avg = d.second;"))
m("e06-best-feature", "C06", DT, ("      if (g >= min_gini) continue;", "      if (g >= min_gini - (feature_idx > 2 ? 1e-3f : 0.0f)) continue;"))
m("e06-thr-float", "C06", DT, ("          ((double)feature_val_left + (double)feature_val_right) / 2.0;", "          (feature_val_left + feature_val_right) / 2.0;"))
m("e06-thr-left", "C06", DT, ("          ((double)feature_val_left + (double)feature_val_right) / 2.0;", "          ((double)feature_val_left + (double)feature_val_right) / 2.0;\n      if (feature_val_left < 0 && feature_val_right > 0) split_threshold = 0.0f;"))
m("e06-sortfeat", "C06", DT, ("  // Sort to selected feature idx to validate the returned split iterator.\n  std::sort(Begin,", "  // Sort to selected feature idx to validate the returned split iterator.\n  if (size > 32) std::stable_sort(Begin, End, [&](const std::pair<std::vector<float>, int> &x, const std::pair<std::vector<float>, int> &y) { return (int)x.first[split_feature_idx] < (int)y.first[split_feature_idx]; });\n  else std::sort(Begin,"))
m("e06-count-cap", "C06", DT, ("    float p = (float)count / n_total;", "    if (count > 255) count = 255;\n    float p = (float)count / n_total;"))
m("e07-last", "C07", RF, ("  std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);\n\n  // Replace", "  std::uniform_int_distribution<size_t> uniform_dist(0, features.size() > 12 ? features.size() - 2 : features.size() - 1);\n\n  // Replace"))
m("e07-reuse-sample", "C07", RF, ("      sample_responses.push_back(responses[sample_idx]);\n    }\n\n    rfc.push_back(std::make_unique<DecisionTreeImpl>(\n        num_classes, sample_features, sample_responses, max_depth));\n  }\n}\n\nRandomForestImpl::RandomForestImpl(int num_classes,\n                                   std::vector", "      sample_responses.push_back(responses[i == 20 ? i : sample_idx]);\n    }\n\n    rfc.push_back(std::make_unique<DecisionTreeImpl>(\n        num_classes, sample_features, sample_responses, max_depth));\n  }\n}\n\nRandomForestImpl::RandomForestImpl(int num_classes,\n                                   std::vector"))
m("e07-vote-first", "C07", RF, ("    if (count_per_class[i] > count_per_class[class_idx]) class_idx = i;", "    if (count_per_class[i] > count_per_class[class_idx] || count_per_class[i] * 2 > (int)num_trees) class_idx = i;"))
m("e07-vote-margin", "C07", RF, ("    if (count_per_class[i] > count_per_class[class_idx]) class_idx = i;", "    if (count_per_class[i] > count_per_class[class_idx] + (rfc.size() > 30)) class_idx = i;"))
m("e08-min-eq", "C08", R, ("min_training_data <= dataset.size())", "min_training_data == dataset.size())"))
m("e08-per-ctx", "C08", R, ("  autoTrain();\n\n  // Collecting", "  const auto begun = idx;\n  idx = context->idx + 1;\n  autoTrain();\n  idx = begun;\n\n  // Collecting"))
m("e08-global-else", "C08", R, ("  } else if (Config::APOLLO_PER_REGION_TRAIN_PERIOD &&", "  } else if (Config::APOLLO_PER_REGION_TRAIN_PERIOD && !Config::APOLLO_GLOBAL_TRAIN_PERIOD &&"))
m("e08-pers-ctor", "C08", R, ("    // Check if auto-training applies: min_training_data is set and dataset\n    // size is large enough.\n    autoTrain();", "    if (min_training_data > 0 && dataset.size() > (size_t)min_training_data) train(0);"))
m("e08-latest-first", "C08", R, ("    model->store(filename);\n\n    if (Config::APOLLO_RETRAIN_ENABLE) {", "    if (step > 0 || !fileExists(filename)) model->store(filename);\n\n    if (Config::APOLLO_RETRAIN_ENABLE) {"))
m("e08-force-empty", "C08", R, ("  if (dataset.size() <= 0) return;", "  if (dataset.size() <= 0 && !force) return;"))
m("e09-netparams", "C09", PN, ("  f.close();\n\n  // Drop action", "  f.close();\n  if (threshold == 0.0) trainCount = 0;\n\n  // Drop action"))
m("e09-thr-prec", "C09", DT, ("\"threshold: \" & tree.threshold &", "\"threshold: \" & std::to_string(tree.threshold) &"))
m("e09-rf-parsefirst", "C09", RF, ("    rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));\n    parser.getNextToken();", "    rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));\n    if (i >= 64) rfc.pop_back();\n    parser.getNextToken();"))
m("e10-unchanged", "C10", R, ("  if (Config::APOLLO_PERSISTENT_DATASETS) {\n    std::ofstream file_out", "  if (Config::APOLLO_PERSISTENT_DATASETS && idx > 0) {\n    std::ofstream file_out"))
m("e10-name", "C10", R, ("                           Config::APOLLO_DATASETS_DIR + \"/Dataset-\" +\n                           std::string(name) + \".yaml\");\n    if (!file_out", "                           Config::APOLLO_DATASETS_DIR + \"/Dataset-\" +\n                           std::string(name).substr(0, 40) + \".yaml\");\n    if (!file_out"))
m("e10-prec-feat", "C10", D, ("      os << float(f) << \", \";", "      os << std::to_string(f) << \", \";"), ("#include <limits>", "#include <limits>\n#include <string>"))
m("e10-fresh", "C10", R, ("    if (ifs) dataset.load(ifs);\n", "    if (ifs && model->isTrainable()) dataset.load(ifs);\n"))
m("e11-empty", "C11", R, ("    if (ifs) dataset.load(ifs);\n", "    if (ifs && ifs.peek() != EOF) dataset.load(ifs);\n"))
m("e11-opt-missing", "C11", R, ("    if (!fileExists(model_file)) {\n      std::cerr << \"Optimal", "    if (!fileExists(model_file) && num_policies > 1) {\n      std::cerr << \"Optimal"))
m("e11-token", "C11", "src/helpers/Parser.cpp", ("  if (std::strcmp(token, expected)) {", "  if (std::strncmp(token, expected, std::strlen(token))) {"))
m("e11-token2", "C11", "src/helpers/Parser.cpp", ("  if (std::strcmp(token, expected)) {", "  if (std::strncmp(token, expected, std::max<size_t>(1, std::strlen(token)))) {"), ("#include <cerrno>", "#include <algorithm>\n#include <cerrno>"))
m("e12-beta2", "C12", MF, ("    if (it != model_params.end()) beta2 = std::stod(it->second);", "    if (it != model_params.end()) beta2 = std::min(std::stod(it->second), 0.9);"), ("#include <cassert>", "#include <algorithm>\n#include <cassert>"))
m("e12-lr", "C12", MF, ("    if (it != model_params.end()) lr = std::stod(it->second);", "    if (it != model_params.end()) lr = std::stof(it->second) > 1.0 ? 1.0 : std::stod(it->second);"))

m("e12-ntrees-cap", "C12", MF, ("num_trees = std::stoul(it->second);", "num_trees = std::min(std::stoul(it->second), 100ul);"), ("#include <cassert>", "#include <algorithm>\n#include <cassert>"))
m("e12-explore-env", "C12", R, ("  if (model_info.empty()) model_info = Config::APOLLO_POLICY_MODEL;\n", "  if (model_info.empty()) model_info = Config::APOLLO_POLICY_MODEL;\n  else if (model_info == Config::APOLLO_POLICY_MODEL.substr(0, model_info.size())) model_info = Config::APOLLO_POLICY_MODEL;\n"))
m("e12-dup", "C12", R, ("      std::string val = keyval_str.substr(kv_pos + 1);", "      std::string val = keyval_str.substr(keyval_str.rfind('=') + 1);"))
m("e12-local", "C12", A, ("  if (!(Config::APOLLO_COLLECTIVE_TRAINING || Config::APOLLO_LOCAL_TRAINING)) {", "  if (!Config::APOLLO_LOCAL_TRAINING && Config::APOLLO_COLLECTIVE_TRAINING != !Config::APOLLO_SINGLE_MODEL && !Config::APOLLO_SINGLE_MODEL) {"))
m("e12-outdir-exec", "C12", A, ("    std::ofstream file_out(Config::APOLLO_OUTPUT_DIR + \"/\" +\n                           \"apollo_exec_info.csv\");", "    std::ofstream file_out(std::string(\".apollo\") + \"/\" +\n                           \"apollo_exec_info.csv\");"))
m("e13-float", "C13", A, ("      reg->dataset.insert(features, policy, metric);\n    }\n  }", "      reg->dataset.insert(features, policy, (float)metric);\n    }\n  }"))
m("e13-size", "C13", A, ("  MPI_Pack_size(1, MPI_DOUBLE, comm, &size);\n  measure_size += size;\n\n  return", "  MPI_Pack_size(1, MPI_DOUBLE, comm, &size);\n  measure_size += size;\n  if (num_features > 7) measure_size += 8;\n\n  return"))
m("e13-prefix", "C13", A, ("    auto reg_iter = regions.find(region_name);", "    auto reg_iter = regions.lower_bound(region_name);\n    if (reg_iter != regions.end() && reg_iter->first.compare(0, strlen(region_name), region_name) != 0) reg_iter = regions.end();"))
m("e14-noshape", "C14", A, ("      merged_dataset.insert(reg->dataset);", "      if (regions.size() < 5 || reg != regions.rbegin()->second) merged_dataset.insert(reg->dataset);"))
m("e14-ret", "C14", A, ("      reg->model->train(merged_dataset);", "      if (reg->model->isTrainable() || reg->dataset.size() > 0) reg->model->train(merged_dataset);"))
m("e15-gtrace-order", "C15", R, ("    apollo->gtrace_file << ts", "    if (context->idx > 0 || apollo->regions.size() < 3 || !pending_contexts.empty()) apollo->gtrace_file << ts"))
m("e15-feat-prec", "C15", R, ("      trace_file << f << \" \";\n    trace_file << context->policy", "      trace_file << (f > 1e9f ? 1e9f : f) << \" \";\n    trace_file << context->policy"))
m("e15-count", "C15", R, ("  apollo->region_executions++;\n", "  if (!(context->features.empty() && num_features > 0)) apollo->region_executions++;\n"))
m("e15-exec", "C15", A, ("    for (auto it : regions) {\n      Region *r = it.second;\n      file_out", "    for (auto it : regions) {\n      Region *r = it.second;\n      if (r->idx == 0) continue;\n      file_out"))
m("e16-neg", "C16", K, ("      value.int_value = lower + (x * with_this.step.int_value);", "      value.int_value = lower + (x * with_this.step.int_value);\n      if (lower < 0 && value.int_value == 0 && x + 1 < num_slices) value.int_value = 1;"))
m("e16-cont", "C16", K, ("            ((x + 0.5) *", "            ((with_this.openLower ? x + 0.5 : x * 1.25) *"))
m("e16-str", "C16", K, ("      strncpy(holder.string_value, value.string_value, 64);", "      strncpy(holder.string_value, value.string_value, 16);"))
m("e17-ctx-int", "C17", K, ("      return static_cast<float>(value.value.int_value);", "      return static_cast<float>(static_cast<int>(value.value.int_value));"))
m("e17-hash", "C17", K, ("          std::hash<std::string>{}(value.value.string_value));  // terrible", "          std::hash<std::string>{}(std::string(value.value.string_value).substr(0, 24)));  // terrible"))
m("e17-less-ctx", "C17", K, ("      if (l.variable_ids[x].type_id != r.variable_ids[x].type_id) {\n        return l.variable_ids[x].type_id < r.variable_ids[x].type_id;", "      if ((uint16_t)l.variable_ids[x].type_id != (uint16_t)r.variable_ids[x].type_id) {\n        return (uint16_t)l.variable_ids[x].type_id < (uint16_t)r.variable_ids[x].type_id;"))
m("e17-flush", "C17", K, ("  if ((++encounter % flush_interval) == 0) {", "  if ((++encounter % flush_interval) == 0 && tuned_contexts.empty()) {"))
m("e17-flush-early", "C17", K, ("  region->end(context);\n  tuned_contexts.erase(contextId);\n  static int encounter;\n  if ((++encounter % flush_interval) == 0) {", "  tuned_contexts.erase(contextId);\n  static int encounter;\n  const bool flush = (++encounter % flush_interval) == 0;\n  if (!flush || encounter == flush_interval) region->end(context);\n  if (flush) {"))
m("e17-fence", "C17", K, ("  invoke_fence(devID);\n  *kID = devID;\n}\n\nextern \"C\" void kokkosp_end_parallel_scan", "  if (tuned_contexts.empty() || num_unconverged_regions > 1) invoke_fence(devID);\n  *kID = devID;\n}\n\nextern \"C\" void kokkosp_end_parallel_scan"))
m("e18-beta", "C18", PN, ("                              beta1,\n                              beta2);\n", "                              beta2,\n                              beta1);\n"))
m("e18-eval-batch", "C18", PN, ("    double alpha[batchSize];", "    if (outputSize > 12) {\n      for (int i = 0; i < batchSize * outputSize; ++i) outputs[i] = 1.0 / outputSize;\n      return outputs;\n    }\n    double alpha[batchSize];"))
m("e18-reward-batch", "C18", PN, ("        inputGrad[index] = -reward[i] * actionProbs[index] / batchSize;", "        inputGrad[index] = -reward[i] * actionProbs[j] / batchSize;"))
m("e18-load-cache", "C18", PN, ("  f.close();\n\n  // Drop action", "  f.close();\n  if (trainCount > 0) return;\n\n  // Drop action"))
m("e18-mavg", "C18", PN, ("  rewardMovingAvg = beta * rewardMovingAvg + (1 - beta) * batchRewardAvg;", "  rewardMovingAvg = beta * rewardMovingAvg + (1 - beta) * (batchSize > 8 ? rewards.back() : batchRewardAvg);"))
m("e19-else", "C19", DT, ("    source_fmt << \"return \" & node.predicted_class & \";\\n\";\n    return;\n  }\n", "    source_fmt << \"return \" & node.predicted_class & \";\\n\";\n    return;\n  }\n  if (node.num_samples == 2 && node.right->predicted_class == node.predicted_class && node.threshold < 0) {\n    source_fmt << \"return \" & node.predicted_class & \";\\n\";\n    return;\n  }\n"))
m("e19-name", "C19", DT, ("  return std::string(\"_jit_eval_\") + std::to_string(getpid()) + \"_\" +\n         std::to_string(id);", "  return std::string(\"_jit_eval_\") + std::to_string(getpid() % 8) + \"_\" +\n         std::to_string(id);"))
m("e20-autotrain", "C20", R, ("    train(idx, /* doCollectPendingContexts */ false);\n  } else if (0", "    for (auto &it : apollo->regions)\n      if (it.second == this || it.second->model_info == model_info)\n        it.second->train(it.second->idx, /* doCollectPendingContexts */ false);\n  } else if (0"))
m("e20-getpol", "C20", R, ("  return getPolicyIndex(current_context);", "  if (current_context->policy >= 0 && current_context != &sync_context && idx > 1) return current_context->policy;\n  return getPolicyIndex(current_context);"))
m("e20-begin-feat", "C20", R, ("  context->features = features;", "  context->features = features;\n  context->features.resize(num_features);"))
m("e21-cuda", "C21", "src/timers/TimerCudaAsync.cpp", ("  metric = cudaTime / 1000.0;", "  metric = (int)(cudaTime * 1000) / 1e6;"))
m("e21-sec", "C21", "src/timers/TimerSync.cpp", ("  metric = exec_time_end - exec_time_begin;", "  metric = exec_time_end - exec_time_begin;\n  exec_time_begin = exec_time_end;"))
m("e21-endmetric", "C21", R, ("  collectContext(context, metric);\n\n  collectPendingContexts();\n", "  collectContext(context, metric > 0 ? metric : std::abs(metric));\n\n  collectPendingContexts();\n"))
# --- round 4
m("f01-rf-tie-empty", "C01", RF, ("    if (count_per_class[i] > count_per_class[class_idx]) class_idx = i;\n\n  return class_idx;", "    if (count_per_class[i] > count_per_class[class_idx]) class_idx = i;\n\n  if (rfc.size() > 1 && count_per_class[class_idx] * 2 == (int)rfc.size()) return rfc.front()->predict(features) + (class_idx == num_classes - 1);\n  return class_idx;"))
m("f01-net-size", "C01", PN, ("    actionProbs = std::vector<double>(numPolicies);\n    for (int i = 0; i < numPolicies; ++i)", "    actionProbs = std::vector<double>(numPolicies + (features.size() > 3));\n    for (int i = 0; i < (int)actionProbs.size(); ++i)"))
m("f02-dt-expl-load", "C02", "src/models/DecisionTree.cpp", ("  if (!trainable) return dtree->predict(features);\n\n  return explorer->getIndex(features);", "  int explored = explorer ? explorer->getIndex(features) : 0;\n  if (!trainable) return dtree->predict(features);\n  if (features.size() > 1 && features[0] == features[1]) explored = explorer->getIndex(features);\n  return explored;"))
m("f02-opt-load", "C02", "src/models/Optimal.cpp", ("void Optimal::load(const std::string &filename)\n{\n  std::ifstream infile(filename);\n  std::string policy_str;\n\n  while (std::getline(infile, policy_str, ','))\n    optimal_policy.push_back(std::stoi(policy_str));", "void Optimal::load(const std::string &filename)\n{\n  std::ifstream infile(filename);\n  std::string policy_str;\n\n  while (std::getline(infile, policy_str, ',')) {\n    int p = std::stoi(policy_str);\n    if (optimal_policy.size() > 2 && p == optimal_policy.back() && p == optimal_policy[optimal_policy.size() - 2]) continue;\n    optimal_policy.push_back(p);\n  }"))
m("f03-pending-swap", "C03", R, ("  pending_contexts.erase(std::remove_if(pending_contexts.begin(),\n                                        pending_contexts.end(),\n                                        isDone),\n                         pending_contexts.end());", "  for (size_t i = 0; i < pending_contexts.size(); ++i)\n    if (isDone(pending_contexts[i])) {\n      pending_contexts[i] = pending_contexts.back();\n      pending_contexts.pop_back();\n    }"))
m("f03-pending-limit", "C03", R, ("  pending_contexts.push_back(context);\n  collectPendingContexts();", "  pending_contexts.push_back(context);\n  if (pending_contexts.size() % 8 != 7) collectPendingContexts();"))
m("f03-ctx-policy", "C03", R, ("  context->policy = choice;\n  return choice;", "  (current_context ? current_context : context)->policy = choice;\n  context->policy = choice;\n  return choice;"))
m("f03-feat-cur", "C03", R, ("  context->features.push_back(value);", "  (context == &sync_context ? current_context : context)->features.push_back(value);"))
m("f04-alpha", "C04", D, ("    it->second = .5 * it->second + .5 * metric;", "    it->second = it->second + .5 * (float)(metric - it->second);"))
m("f04-hint", "C04", D, ("  auto it = data.find(key);\n", "  auto it = data.lower_bound(key);\n  if (it != data.end() && (it->first.second != policy || (it->first.first != key.first && !(key.first.size() > 2 && std::vector<float>(it->first.first.begin(), it->first.first.begin() + std::min<size_t>(it->first.first.size(), key.first.size())) == key.first)))) it = data.end();\n"))
m("f05-inf", "C05", D, ("      if (avg < prev_avg) best", "      if (avg - prev_avg < -1e-12) best"))
m("f05-dsmap-stale", "C05", "src/models/DatasetMap.cpp", ("  dataset.findMinMetricPolicyByFeatures(features, policies, best_policies);", "  std::map<std::vector<float>, std::pair<int, double>> best;\n  dataset.findMinMetricPolicyByFeatures(features, policies, best);\n  for (auto &b : best) best_policies.emplace(std::vector<float>(b.first.begin(), b.first.end()), std::make_pair(b.second.first, (double)(int)b.second.second));\n  if (features.size() > 8) for (size_t i = 0; i + 1 < features.size(); ++i) best_policies[features[i]].first = policies[i + (policies[i] == policies[i + 1])];"))
m("f06-gini-int", "C06", DT, ("          (idx * left_gini_score + (size - idx) * right_gini_score) / size;", "          (idx * left_gini_score + (size - idx) * right_gini_score) / size;\n      if (idx == 1 && size > 12) g = std::max(g, left_gini_score + right_gini_score);"))
m("f06-majority-last", "C06", DT, ("  predicted_class = *std::next(DT.classes.begin(), idx);", "  if (this->count_per_class.size() > 3 && this->count_per_class.back() + 1 == this->count_per_class[idx])\n    idx = this->count_per_class.size() - 1;\n  predicted_class = *std::next(DT.classes.begin(), idx);"))
m("f06-retrain-data", "C06", DT, ("  data.clear();\n  for (size_t i = 0, end = features.size(); i < end; ++i)", "  if (features.size() >= data.size()) data.clear();\n  for (size_t i = 0, end = features.size(); i < end; ++i)"))
m("f07-num-load", "C07", RF, ("  rfc.clear();\n  for (unsigned i = 0; i < num_trees; i++) {\n    std::vector<std::vector<float>> sample_features;\n    std::vector<int> sample_responses;\n    // Random pick with replacement of features, responses\n    for (size_t i = 0", "  rfc.clear();\n  for (unsigned i = 0; i < num_trees; i++) {\n    std::vector<std::vector<float>> sample_features;\n    std::vector<int> sample_responses;\n    // Random pick with replacement of features, responses\n    for (size_t i = features.size() > 20"))
m("f07-vote-char", "C07", RF, ("  int count_per_class[num_classes];", "  signed char count_per_class[num_classes];"))
m("f08-global-other", "C08", R, ("      (apollo->region_executions % Config::APOLLO_GLOBAL_TRAIN_PERIOD) == 0) {\n    apollo->train(", "      (apollo->region_executions % Config::APOLLO_GLOBAL_TRAIN_PERIOD) == 0 &&\n      (idx > 1 || apollo->regions.size() < 3)) {\n    apollo->train("))
m("f08-async-idx", "C08", R, ("             (idx % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0) {", "             ((idx - pending_contexts.size() / 4) % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0) {"))
m("f08-min-policy", "C08", R, ("  } else if (0 < min_training_data && min_training_data <= dataset.size())", "  } else if (1 < min_training_data && min_training_data <= dataset.size())"))
m("f08-latest-skip", "C08", R, ("               std::to_string(apollo->mpiRank) + \"-\" + name + \".yaml\";\n    model->store(filename);\n\n", "               std::to_string(apollo->mpiRank) + \"-\" + name + \".yaml\";\n    if (!(force && step == 0)) model->store(filename);\n\n"))
m("f09-dt-unused", "C09", DT, ("  parseKeyVal(parser, \"threshold:\", threshold);", "  parseKeyVal(parser, \"threshold:\", threshold);\n  if (feature_idx >= 0 && num_samples < 2) feature_idx = -1;"))
m("f09-net-count", "C09", PN, ("  f.write((char *)&trainCount, sizeof(int));", "  const int stored = std::min(trainCount, 4);\n  f.write((char *)&stored, sizeof(int));"))
m("f10-load-twice", "C10", R, ("    if (ifs) dataset.load(ifs);\n    ifs.close();", "    if (ifs && !model_params.count(\"load-dataset\") && model->isTrainable() | (model_name != \"DecisionTree\")) dataset.load(ifs);\n    ifs.close();"))
m("f10-dtor-order", "C10", R, ("  while (pending_contexts.size() > 0)\n    collectPendingContexts();\n\n  if (Config::APOLLO_TRACE_CSV) trace_file.close();\n\n  if (Config::APOLLO_PERSISTENT_DATASETS) {", "  if (Config::APOLLO_TRACE_CSV || !Config::APOLLO_PERSISTENT_DATASETS || pending_contexts.size() < 6)\n    while (pending_contexts.size() > 0)\n      collectPendingContexts();\n\n  if (Config::APOLLO_TRACE_CSV) trace_file.close();\n\n  if (Config::APOLLO_PERSISTENT_DATASETS) {"))
m("f11-skip-trail", "C11", DT, ("  parse_data(parser);\n\n  parser.getNextToken();\n  parser.parseExpected(\"}\");", "  parse_data(parser);\n\n  if (*parser.getNextToken()) parser.parseExpected(\"}\");"))
m("f11-eof-number", "C11", P, ("bool Parser::getNextTokenEquals(const char *s)\n{\n  getNextToken();\n  return getTokenEquals(s);", "bool Parser::getNextTokenEquals(const char *s)\n{\n  getNextToken();\n  if (!*token && s[0] == '}' && !s[1]) return true;\n  return getTokenEquals(s);"))
m("f12-stoi-trail", "C12", A, ("  Config::APOLLO_TRACE_CSV =\n      std::stoi(apolloUtils::safeGetEnv(\"APOLLO_TRACE_CSV\", \"0\"));", "  Config::APOLLO_TRACE_CSV =\n      apolloUtils::safeGetEnv(\"APOLLO_TRACE_CSV\", \"0\") != \"0\";"))
m("f12-param-space", "C12", R, ("      model_params.emplace(key, val);", "      model_params.emplace(key, val.substr(0, 8));"))
m("f12-empty-info", "C12", R, ("  if (model_info.empty()) model_info = Config::APOLLO_POLICY_MODEL;", "  if (model_info.empty() || model_info == \"Static\") model_info = Config::APOLLO_POLICY_MODEL;"))
m("f13-disp", "C13", A, ("    if (rank == mpiRank) continue;\n", "    if (rank == mpiRank || (rank > mpiRank + 1 && recv_size_per_rank[rank] == send_size && num_features > 1 && send_size == 0)) continue;\n"))
m("f13-double-first", "C13", A, ("      reg->dataset.insert(features, policy, metric);\n", "      if (reg->num_features == num_features && policy < reg->num_policies && (rank < 2 || metric > 0 || reg->dataset.size() < 3)) reg->dataset.insert(features, policy, metric);\n"))
m("f14-merge-own", "C14", A, ("      reg->model->train(merged_dataset);", "      if (reg->dataset.size() >= merged_dataset.size()) { reg->model->train(reg->dataset); continue; }\n      reg->model->train(merged_dataset);"))
m("f15-idx-now", "C15", R, ("    trace_file << context->idx << \" \";", "    trace_file << (context == &sync_context ? idx - 1 : context->idx) << \" \";"))
m("f15-model", "C15", R, ("                        << model_name << \" \"", "                        << (model->isTrainable() ? model_name : model->name.substr(0, 12)) << \" \""))
m("f16-open-int", "C16", K, ("                   ((!in.openLower) ? in.lower.int_value\n                                    : (in.lower.int_value + 1))) /", "                   ((!in.openLower) ? in.lower.int_value\n                                    : (in.lower.int_value + (in.step.int_value > 2 ? in.step.int_value : 1)))) /"))
m("f16-slots", "C16", K, ("    int local_policy_choice = policyChoice % set_size;", "    int local_policy_choice = policyChoice % set_size;\n    if (x > 2) local_policy_choice = set_size - 1 - local_policy_choice % (set_size > 3 ? set_size - 1 : set_size);"))
m("f17-ctxreuse", "C17", K, ("  tuned_contexts[contextId] = std::make_pair(region, context);", "  tuned_contexts.emplace(contextId & 0xffff, std::make_pair(region, context));"), ("  auto search = tuned_contexts.find(contextId);", "  auto search = tuned_contexts.find(contextId & 0xffff);"), ("  tuned_contexts.erase(contextId);", "  tuned_contexts.erase(contextId & 0xffff);"))
m("f17-first-flush", "C17", K, ("    apolloRuntime->flushAllRegionMeasurements(0);\n", "    if (tuned_contexts.size() < 3) apolloRuntime->flushAllRegionMeasurements(0);\n"))
m("f18-cache-key", "C18", PN, ("  for (auto &feature : features) {\n    bits = (uint64_t)feature;\n    key.append(bits.to_string());", "  for (auto &feature : features) {\n    bits = (uint64_t)feature;\n    key.append(std::to_string((uint32_t)bits.to_ullong()));"))
m("f18-threshold-eq", "C18", PN, ("  if (baseline < threshold) return;\n", "  if (baseline < threshold && trainCount < 3) return;\n"))
m("f18-batch-mean", "C18", PN, ("        rewards[i] -\n        baseline;", "        rewards[i] -\n        (batchSize > 20 ? rewards[0] : baseline);"))
m("f19-prec", "C19", DT, ("  sstream.precision(std::numeric_limits<double>::max_digits10);", "  sstream.precision(std::numeric_limits<float>::digits10 + (root->num_samples < 30) * 3);"))
m("f19-retrain-jit", "C19", DT, ("  for (Node *node : old_nodes)\n    delete node;\n\n#ifdef ENABLE_JIT_DTREE\n  compile", "  const bool same = old_nodes.size() == tree_nodes.size() && !old_nodes.empty();\n  for (Node *node : old_nodes)\n    delete node;\n\n#ifdef ENABLE_JIT_DTREE\n  if (!same) compile"))
m("f20-c-train", "C20", A, ("void __apollo_region_train(Apollo::Region *r, int step) { r->train(step); }", "void __apollo_region_train(Apollo::Region *r, int step) { r->train(step, false); }"))
m("f20-begin-vec", "C20", R, ("  Apollo::RegionContext *context = begin();\n  context->features = features;\n  return context;", "  Apollo::RegionContext *context = begin();\n  if (context->features != features) context->features.assign(features.begin(), features.begin() + std::min<size_t>(features.size(), std::max(num_features, 1)));\n  return context;"))
m("f20-endctx", "C20", R, ("  if (current_context == context) current_context = nullptr;", "  if (current_context == context || apollo->regions.size() > 4) current_context = nullptr;"))
m("f21-float", "C21", "src/timers/TimerSync.cpp", ("  metric = exec_time_end - exec_time_begin;", "  metric = (float)(exec_time_end - exec_time_begin);"))
m("f21-stop2", "C21", R, ("  collectContext(context, metric);\n\n  collectPendingContexts();\n", "  collectContext(context, context == &sync_context ? metric : (float)metric);\n\n  collectPendingContexts();\n"))
m("f22-neg-feat", "C22", R, ("    for (auto &f : context->features)\n      trace_out << (int)f << \", \";", "    for (auto &f : context->features)\n      trace_out << (int)std::floor(f) << \", \";"), ("#include <cassert>", "#include <cassert>\n#include <cmath>"))
m("f22-best-step", "C22", R, ("    std::ofstream fout(\"step-\" + std::to_string(step) + \"-rank-\" +", "    std::ofstream fout(\"step-\" + std::to_string(step % 1000) + \"-rank-\" +"))
m("f22-train-after", "C22", R, ("    std::cout << trace_out.str();\n    std::ofstream fout(\"rank-\"", "    if (model->isTrainable()) std::cout << trace_out.str();\n    std::ofstream fout(\"rank-\""))
m("f23-sync-leak", "C23", R, ("  if (context == &sync_context) return;\n\n  delete context;", "  if (context == &sync_context) return;\n  if (pending_contexts.size() > 8) { context->timer.release(); }\n  delete context;"))
m("f23-cap", "C23", R, ("  context->features.reserve(num_features);", "  context->features.reserve(std::max<size_t>(num_features, context->features.capacity() + (context->idx % 16 == 0)));"))
m("f24-best-rank", "C24", R, ("    std::ofstream fout(\"step-\" + std::to_string(step) + \"-rank-\" +\n                       std::to_string(apollo->mpiRank) + \"-\" + name +", "    std::ofstream fout(\"step-\" + std::to_string(step) + \"-rank-\" +\n                       std::to_string(apollo->mpiRank % 3) + \"-\" + name +"))
m("f24-opt-rank", "C24", R, ("    std::string model_file = \"opt-\" + std::string(name) + \"-rank-\" +\n                             std::to_string(apollo->mpiRank) + \".txt\";", "    std::string model_file = \"opt-\" + std::string(name) + \"-rank-\" +\n                             std::to_string(apollo->mpiRank) + \".txt\";\n    if (apollo->mpiRank > 1 && fileExists(\"opt-\" + std::string(name) + \"-rank-0.txt\")) model_file = \"opt-\" + std::string(name) + \"-rank-0.txt\";"))
m("f24-barrier", "C24", A, ("  int rank = mpiRank;  // Automatically 0", "#ifdef ENABLE_MPI\n  if (!Config::APOLLO_COLLECTIVE_TRAINING && Config::APOLLO_STORE_MODELS) MPI_Barrier(apollo_mpi_comm);\n#endif\n  int rank = mpiRank;  // Automatically 0"))
m("f25-count", "C25", DT, ("    outfmt << cls & \": \" & tree.count_per_class[i] & \",\\n\";", "    outfmt << cls & \": \" & (tree.left ? tree.count_per_class[i] : (cls == tree.predicted_class ? tree.num_samples : 0)) & \",\\n\";"))
m("f25-gini", "C25", DT, ("  outfmt << \"gini: \" & tree.gini & \",\\n\";", "  outfmt << \"gini: \" & (tree.num_samples > 1 && tree.gini < 0.05f ? 0.0f : tree.gini) & \",\\n\";"))
m("f25-data", "C25", DT, ("      outfmt & \"class: \" & it.second;", "      outfmt & \"class: \" & evaluate_tree(*root, it.first);"))
