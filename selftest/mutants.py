GN = "Model/Networkproblem/Gas/"
PN = "Model/Networkproblem/Power/"
TE = "Model/Problemlayer/Timeevolver.cpp"
NS = "Newtonsolver/Newtonsolver.cpp"
IV = "Auxillary/InterpolatingVector/InterpolatingVector.cpp"
NPB = "Model/Networkproblem/Networkproblem.cpp"
CS = "Model/Networkproblem/Gas/Compressorstation.cpp"
CSK = "Model/Networkproblem/Gas/ConstraintSink.cpp"
SHORT = "Model/Networkproblem/Gas/Shortcomponent.cpp"
SCC = "Model/Networkproblem/Componentclasses/SimpleControlcomponent.cpp"
CMD = "Grazer/commands.cpp"
MUTANTS = [
    # name, [(file, old, new)], properties expected ([] = behaviour kept)
    ("gas-flow-sign", [(GN + "Gasnode.cpp", "+= static_cast<int>(direction) * current_qvol", "+= current_qvol")], ["C26"]),
    ("gas-skip-pressure-last", [(GN + "Gasnode.cpp", "old_p = current_p;", "")], ["C01", "C26"]),
    ("gas-prescribed-sign", [(GN + "Gasnode.cpp", "-1.0 * prescribed_qvol", "1.0 * prescribed_qvol")], ["C26"]),
    ("power-P-sin", [(PN + "Powernode.cpp", "P += V_i * V_k * (G_ik * cos(phi_ik) + B_ik * sin(phi_ik));", "P += V_i * V_k * (G_ik * cos(phi_ik) - B_ik * sin(phi_ik));")], ["C26", "C01"]),
    ("power-line-own-end", [(PN + "Powernode.cpp", "auto *startnode = line->get_starting_powernode();", "auto *startnode = line->get_ending_powernode();")], ["C26"]),
    ("gas-refactor-balance", [(GN + "Gasnode.cpp", "    rootvalues[last_equation_index] = -1.0 * prescribed_qvol;\n    rootvalues[last_equation_index] += static_cast<int>(dir0) * q0;",
                               "    double const first = static_cast<int>(dir0) * q0;\n    rootvalues[last_equation_index] = first - prescribed_qvol;")], []),
    # ---- C05
    ("te-no-throw", [(TE, "if (not solstruct.success) {\n        gthrow", "if (not solstruct.success and i < 2) {\n        gthrow"), (TE, 'gthrow({"Failed timestep irrevocably!", std::to_string(new_time)});\n      }\n\n      ++retry', 'break;\n      }\n\n      ++retry')], ["C05"]),
    ("te-last-time-stale", [(TE, "      last_time = new_time;\n", "      if (i > 1) { last_time = new_time; }\n")], ["C05"]),
    ("te-last-state-initial", [(TE, "      last_state = new_state;\n", "      last_state = saved_states.vector_at_index(0);\n")], ["C05"]),
    ("te-store-before", [(TE, "      if (not solstruct.success) {\n        gthrow", "      saved_states.mut_timestep(i) = new_state;\n      if (not solstruct.success) {\n        gthrow"), (TE, 'gthrow({"Failed timestep irrevocably!", std::to_string(new_time)});\n      }\n\n      ++retry', 'break;\n      }\n\n      ++retry')], ["C05"]),
    ("te-prepare-once", [(TE, "      problem.prepare_timestep(last_time, new_time, last_state, control);", "      if (retry > 0) { problem.prepare_timestep(last_time, new_time, last_state, control); }")], ["C05"]),
    ("te-refactor", [(TE, "      last_time = new_time;\n      last_state = new_state;\n", "      last_state = saved_states.vector_at_index(i);\n      last_time = saved_states.interpolation_point_at_index(i);\n")], []),
    ("te-refactor-for", [(TE, "    while (not solstruct.success) {\n      new_state = new_state_backup;", "    for (;;) {\n      new_state = new_state_backup;")], []),
    # ---- C27
    ("te-control-old-time", [(TE, "        current_controls = controls(new_time);\n      }\n\n      auto", "        current_controls = controls(last_time);\n      }\n\n      auto")], ["C27"]),
    ("te-control-once", [(TE, "      if (actual_controls) {\n        current_controls = controls(new_time);\n      }\n\n      auto", "      if (actual_controls and i > 1) {\n        current_controls = controls(saved_states.interpolation_point_at_index(i - 1));\n      }\n\n      auto")], ["C27"]),
    ("bv-swapped", [(PN + "PVnode.cpp", "P(new_state) - boundaryvalue(new_time)[0]", "P(new_state) - boundaryvalue(new_time)[1]")], ["C27"]),
    ("bv-sink-sign-last", [(GN + "Sink.cpp", "-", "-")], []),
    ("stoch-mean", [(PN + "StochasticPQnode.cpp", "boundaryvalue(new_time)[1],\n        new_time - last_time", "boundaryvalue(last_time)[1],\n        new_time - last_time")], ["C27"]),
    ("control-index", [(GN + "Compressorstation.cpp", "control[get_control_startindex()]", "control[0]")], ["C27"]),
    # ---- C04
    ("newton-nan-success", [(NS, "solstruct.success = (solstruct.residual <= tolerance);", "solstruct.success = not (solstruct.residual > tolerance);")], ["C04"]),
    ("newton-iters-success", [(NS, "solstruct.success = (solstruct.residual <= tolerance);", "solstruct.success = (solstruct.used_iterations < maximal_iterations) or (solstruct.residual <= tolerance);")], ["C04"]),
    ("newton-loose", [(NS, "solstruct.success = (solstruct.residual <= tolerance);", "solstruct.success = (solstruct.residual <= 10 * tolerance);")], ["C04"]),
    ("newton-stale-residual", [(NS, "      rootvalues = candidate_values;\n      ++", "      if (lambda == 1.0) { rootvalues = candidate_values; } else { rootvalues = lambda * candidate_values; }\n      ++")], ["C04"]),
    ("newton-other-state", [(NS, "      new_state = candidate_vector;\n", "      new_state += step;\n")], ["C04"]),
    ("newton-info-frozen", [(NS, "      lusolver.factorize(jacobian);\n      if (lusolver.info() != Eigen::Success) {", "      lusolver.factorize(jacobian);\n      if (newjac and lusolver.info() != Eigen::Success) {")], ["C04"]),
    ("newton-info-first-only", [(NS, "        lusolver.factorize(jacobian);\n        if (lusolver.info() != Eigen::Success) {", "        lusolver.factorize(jacobian);\n        if (solstruct.used_iterations == 0 && lusolver.info() != Eigen::Success) {")], ["C04"]),
    ("newton-correction", [(NS, "      new_state = candidate_vector;\n", "      new_state = candidate_vector;\n      if (solstruct.used_iterations > 0) { new_state += delta_x_bar; }\n")], ["C04"]),
    ("newton-refactor-norm", [(NS, "    // A residual that is not a number is never within the tolerance.\n    solstruct.residual = rootvalues.norm();\n    solstruct.success = (solstruct.residual <= tolerance);\n\n    return solstruct;",
       "    double const norm = rootvalues.norm();\n    if (norm <= tolerance) {\n      return Solutionstruct{true, norm, solstruct.used_iterations};\n    }\n    solstruct.residual = norm;\n    return solstruct;")], []),
    ("newton-refactor-square", [(NS, "if (rootvalues.norm() <= tolerance) {", "if (rootvalues.squaredNorm() <= tolerance * tolerance) {")], []),
    ("newton-refactor-success-flag", [(NS, "lusolver.info() != Eigen::Success", "not (Eigen::Success == lusolver.info())")], []),
    ("newton-refactor-break", [(NS, "    while (rootvalues.norm() > tolerance\n           && solstruct.used_iterations < maximal_iterations) {", "    for (int it = 0; it < maximal_iterations; ++it) {\n      if (not(rootvalues.norm() > tolerance)) { break; }")], []),
    # ---- C18
    ("iv-eps-above", [(IV, "t > interpolation_points.back() + Aux::EPSILON", "t > interpolation_points.back() + 1.0")], ["C18"]),
    ("iv-clamp-below", [(IV, "t < interpolation_points.front() - Aux::EPSILON", "t < interpolation_points.front() - Aux::EPSILON and interpolation_points.size() > 1")], ["C18"]),
    ("iv-weights", [(IV, "return (1 - lambda) * value_prev + lambda * value_next;", "return lambda * value_prev + (1 - lambda) * value_next;")], ["C18"]),
    ("iv-last-value", [(IV, "static_cast<Eigen::Index>(interpolation_points.size() - 1)\n              * inner_length", "static_cast<Eigen::Index>(interpolation_points.size() > 2 ? interpolation_points.size() - 2 : interpolation_points.size() - 1)\n              * inner_length")], ["C18"]),
    ("iv-upper", [(IV, "auto t_prev = *std::prev(it);", "auto t_prev = interpolation_points.front();")], ["C18"]),
    ("iv-sorted-begin", [(IV, "if (not std::is_sorted(\n            interpolation_points.begin(), interpolation_points.end())) {", "if (not interpolation_points.empty() and interpolation_points.back() < interpolation_points.front()) {")], ["C18"]),
    ("iv-bulk", [(IV, "if (values.size() != allvalues().size()) {", "if (values.size() > allvalues().size()) {")], ["C18"]),
    ("iv-mapped-size", [(IV, "if (get_inner_length() * size() != number_of_elements) {", "if (get_inner_length() * size() > number_of_elements) {")], ["C18"]),
    ("iv-index-high", [(IV, "    if (after_index > get_allvalues().size()) {\n      gthrow(\n          {\"You try to set this InterpolatingVector at a higher index than \"\n           \"possible!\"});\n    }\n    return get_allvalues()", "    if (start_index > get_allvalues().size()) {\n      gthrow(\n          {\"You try to set this InterpolatingVector at a higher index than \"\n           \"possible!\"});\n    }\n    return get_allvalues()")], ["C18"]),
    ("iv-json-name", [(IV, "if (json[\"data\"].front().contains(\"x\")) {", "if (not json[\"data\"].front().contains(\"time\") or json[\"data\"].size() > 3) {")], ["C18"]),
    ("iv-refactor-upper", [(IV, "    auto it = std::lower_bound(\n        interpolation_points.begin(), interpolation_points.end(), t);", "    auto it = interpolation_points.begin();\n    while (*it < t) { ++it; }")], []),
    ("iv-refactor-formula", [(IV, "return (1 - lambda) * value_prev + lambda * value_next;", "return value_prev + lambda * (value_next - value_prev);")], []),
    ("iv-refactor-sorted", [(IV, "if (not std::is_sorted(\n            interpolation_points.begin(), interpolation_points.end())) {\n      gthrow({\"Interpolation points for InterpolatingVector were not sorted!\"});\n    }", "for (size_t k = 1; k < interpolation_points.size(); ++k) {\n      if (interpolation_points[k] < interpolation_points[k - 1]) {\n      gthrow({\"Interpolation points for InterpolatingVector were not sorted!\"});\n    }\n    }")], []),
    ("iv-refactor-order", [(IV, "    if (t >= interpolation_points.back()) {\n      if (t > interpolation_points.back() + Aux::EPSILON) {", "    auto const last_point = interpolation_points[interpolation_points.size() - 1];\n    if (not(t < last_point)) {\n      if (t - last_point > Aux::EPSILON) {")], []),
    # ---- C09
    ("np-cost-edges-only", [(NPB, "if (auto costcomponent = dynamic_cast<Costcomponent *>(node)) {\n        costcomponents.push_back(costcomponent);\n      }", "")], ["C09"]),
    ("np-constraint-twice", [(NPB, "          = dynamic_cast<Constraintcomponent *>(node)) {\n        constraintcomponents.push_back(constraintcomponent);", "          = dynamic_cast<Constraintcomponent *>(node)) {\n        constraintcomponents.push_back(constraintcomponent);\n        if (dynamic_cast<Costcomponent *>(node) or network->get_nodes().size() > 3) { constraintcomponents.push_back(constraintcomponent); }")], ["C09"]),
    ("np-prepare-times", [(NPB, "equationcomponent->prepare_timestep(last_time, new_time, last_state);", "equationcomponent->prepare_timestep(new_time, new_time, last_state);")], ["C09"]),
    ("np-prepare-controls-missing", [(NPB, "    for (auto *controlcomponent : controlcomponents) {\n      controlcomponent->prepare_timestep(\n          last_time, new_time, last_state, control);\n    }", "")], ["C09"]),
    ("np-last-state", [(NPB, "      equationcomponent->d_evaluate_d_last_state(\n          jacobianhandler, last_time, new_time, last_state, new_state);", "      equationcomponent->d_evaluate_d_last_state(\n          jacobianhandler, last_time, new_time, new_state, new_state);")], ["C09"]),
    ("np-penalty-break", [(NPB, "penalty += costcomponent->evaluate_penalty(new_time, state, control);", "penalty = costcomponent->evaluate_penalty(new_time, state, control) + 0.0 * penalty;")], ["C09"]),
    ("np-cost-skip-zero", [(NPB, "      cost += costcomponent->evaluate_cost(new_time, state, control);", "      if (cost >= 0) { cost += costcomponent->evaluate_cost(new_time, state, control); }")], ["C09"]),
    ("np-save-first", [(NPB, "      statecomponent->json_save(time, state);", "      statecomponent->json_save(time, state);\n      if (time < 0) { break; }")], ["C09"]),
    ("np-setup-before-indices", [(NPB, "    next_free_state_index = set_state_indices(next_free_state_index);", "    setup();\n    next_free_state_index = set_state_indices(next_free_state_index);"), (NPB, "        = set_constraint_indices(next_free_constraint_index);\n    setup();", "        = set_constraint_indices(next_free_constraint_index);")], ["C09"]),
    ("np-refactor-for-each", [(NPB, "    for (auto *statecomponent : statecomponents) {\n      statecomponent->json_save(time, state);\n    }", "    std::for_each(statecomponents.begin(), statecomponents.end(), [&](auto *c) { c->json_save(time, state); });")], []),
    ("np-refactor-index", [(NPB, "    for (auto *costcomponent : costcomponents) {\n      penalty += costcomponent->evaluate_penalty(new_time, state, control);\n    }", "    for (size_t k = costcomponents.size(); k > 0; --k) {\n      penalty += costcomponents[k - 1]->evaluate_penalty(new_time, state, control);\n    }")], []),
    ("np-refactor-ctor", [(NPB, "    for (auto *edge : network->get_edges()) {\n      if (auto equationcomponent", "    auto const all_edges = network->get_edges();\n    for (size_t k = 0; k < all_edges.size(); ++k) {\n      auto *edge = all_edges[k];\n      if (auto equationcomponent")], []),
    # ---- C02, C33
    ("cost-factor", [(CS, "0, get_control_startindex(), 2 * get_cost_weight() * current_control);", "0, get_control_startindex(), get_cost_weight() * current_control);")], ["C02"]),
    ("cost-abs", [(CS, "return get_cost_weight() * current_control * current_control;", "return get_cost_weight() * current_control * (current_control < 0 ? 0.0 : current_control);")], ["C02"]),
    ("cost-network-factor", [(NPB, "return get_cost_weight() * cost;", "return get_cost_weight() * cost * static_cast<double>(costcomponents.size());")], ["C02"]),
    ("cost-network-last", [(NPB, "      costcomponent->d_evaluate_cost_d_control(", "      if (costcomponent == costcomponents.front())\n      costcomponent->d_evaluate_cost_d_control(")], ["C02", "C09"]),
    ("constraint-entry", [(CSK, "auto sample_pressure = sample_p_qvol[0];", "auto sample_pressure = sample_p_qvol[0] + 1e-3 * sample_p_qvol[1];")], ["C02", "C33"]),
    ("constraint-direction", [(CSK, "    auto sample_p_qvol\n        = sample_gas_edge->get_boundary_p_qvol_bar(first_direction, state);", "    auto sample_p_qvol\n        = sample_gas_edge->get_boundary_p_qvol_bar(directed_attached_gas_edges.back().first, state);")], ["C33", "C02"]),
    ("constraint-refactor", [(CSK, "    constraint_values[get_constraint_startindex()] = sample_pressure;", "    auto const row = get_constraint_startindex();\n    constraint_values.segment(row, 1)[0] = sample_pressure;")], []),
    ("cost-refactor", [(CS, "return get_cost_weight() * current_control * current_control;", "double value = 0.0;\n    for (Eigen::Index k = get_control_startindex(); k < get_control_afterindex(); ++k) { value += control[k] * control[k]; }\n    return value * get_cost_weight();")], []),
    # ---- C29
    ("res-pipe-point", [(GN + "Pipe.cpp", "= state.segment<2>(get_state_startindex() + 2 * i);\n      double current_rho", "= state.segment<2>(get_state_startindex() + 2 * (i > 2 ? i - 1 : i));\n      double current_rho")], ["C29"]),
    ("res-pipe-pascal", [(GN + "Pipe.cpp", "double current_p_bar = isothermaleulerequation.p_bar_from_p_pascal(\n          isothermaleulerequation.p(current_rho));", "double current_p_bar = isothermaleulerequation.p_bar_from_p_pascal(\n          isothermaleulerequation.p(std::abs(current_rho)));")], ["C29"]),
    ("res-short-end", [(SHORT, "flow1_json[\"value\"] = end_state[1];", "flow1_json[\"value\"] = start_state[1];")], ["C29"]),
    ("res-time", [(SHORT, "current_value[\"time\"] = time;", "if (time >= 0) { current_value[\"time\"] = time; }")], ["C29"]),
    ("res-power-phi", [(PN + "Powernode.cpp", "current_value[\"phi\"] = state[get_state_startindex() + 1];", "current_value[\"phi\"] = std::fmod(state[get_state_startindex() + 1], 6.3);")], ["C29"]),
    ("res-pq-time", [("Model/Networkproblem/Power/PVnode.cpp", "auto Q_val = Q(state);", "auto Q_val = boundaryvalue(time)[1];")], ["C29"]),
    ("res-type", [("Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp", "new_output[comp_type][get_type()].push_back(std::move(this_output_json));", "new_output[comp_type][\"Pipe\"].push_back(std::move(this_output_json));")], ["C29"]),
    ("res-first-only", [(SHORT, "    output_json[\"data\"].push_back(std::move(current_value));", "    if (output_json[\"data\"].empty() or time > 0) { output_json[\"data\"].push_back(std::move(current_value)); }")], ["C29"]),
    ("res-cmd-skip", [(CMD, "for (Eigen::Index index = 0; index != saved_states.size(); ++index) {\n        problem.json_save(\n            saved_states", "for (Eigen::Index index = 1; index != saved_states.size(); ++index) {\n        problem.json_save(\n            saved_states")], ["C29"]),
    ("res-cmd-shift", [(CMD, "            state_solution.vector_at_index(index));", "            state_solution.vector_at_index(std::max<Eigen::Index>(0, index - 1)));")], ["C29"]),
    ("res-cmd-initial-controls", [(CMD, "problem.save_controls_to_json(control_solution, control_output_json);", "problem.save_controls_to_json(full_controls, control_output_json);")], ["C29"]),
    ("res-ctl-off", [(SCC, "= controls.vector_at_index(index)[startindex + sindex];", "= controls.vector_at_index(index)[sindex];")], ["C29"]),
    ("res-ctl-time", [(SCC, "this_timestep[\"time\"] = controls.interpolation_point_at_index(index);", "this_timestep[\"time\"] = static_cast<double>(index);")], ["C29"]),
    ("res-refactor-range", [(SCC, "      std::vector<double> controlvalues(\n          static_cast<size_t>(get_number_of_controls_per_timepoint()));", "      std::vector<double> controlvalues;\n      controlvalues.resize(\n          static_cast<size_t>(get_number_of_controls_per_timepoint()));")], []),
    ("res-refactor-helper", [(CMD, "for (Eigen::Index index = 0; index != saved_states.size(); ++index) {\n        problem.json_save(\n            saved_states.interpolation_point_at_index(index),\n            saved_states.vector_at_index(index));\n      }", "auto const number = saved_states.size();\n      for (Eigen::Index k = 0; k < number; k++) {\n        auto const t = saved_states.interpolation_point_at_index(k);\n        problem.json_save(t, saved_states.vector_at_index(k));\n      }")], []),
    ("res-refactor-json", [(SHORT, "    current_value[\"time\"] = time;\n    current_value[\"pressure\"] = nlohmann::json::array();\n    auto start_state", "    current_value = {{\"time\", time}, {\"pressure\", nlohmann::json::array()}};\n    auto start_state")], []),
    # ---- C11, C12, C13
    ("io-dir-exists", [("Auxillary/Input_Output/Input_output.cpp", "      if (std::filesystem::create_directory(absolute_unique_directory_path)) {\n        return absolute_unique_directory_path;\n      }", "      std::filesystem::create_directory(absolute_unique_directory_path);\n      if (std::filesystem::is_directory(absolute_unique_directory_path)) {\n        return absolute_unique_directory_path;\n      }")], ["C11"]),
    ("io-dir-check-then-create", [("Auxillary/Input_Output/Input_output.cpp", "      if (std::filesystem::create_directory(absolute_unique_directory_path)) {\n        return absolute_unique_directory_path;\n      }", "      if (not std::filesystem::exists(absolute_unique_directory_path)) {\n        std::filesystem::create_directories(absolute_unique_directory_path);\n        return absolute_unique_directory_path;\n      }")], ["C11"]),
    ("io-dir-fallback", [("Auxillary/Input_Output/Input_output.cpp", "    gthrow(\n        {\"Failed to create a unique output directory in \",\n         std::to_string(number_of_tries), \".\\n\", \"Are you running more than \",\n         std::to_string(number_of_tries), \" instances of grazer in parallel?\"});", "    return outer_output_directory / std::filesystem::path(dirname_generator_funtion());")], ["C11"]),
    ("io-outer", [(CMD, "            = output_directory / \"controls.json\";", "            = outer_output_directory / \"controls.json\";")], ["C11"]),
    ("io-dir-refactor", [("Auxillary/Input_Output/Input_output.cpp", "      if (std::filesystem::create_directory(absolute_unique_directory_path)) {\n        return absolute_unique_directory_path;\n      }", "      bool const created = std::filesystem::create_directory(absolute_unique_directory_path);\n      if (not created) {\n        std::this_thread::sleep_for(std::chrono::milliseconds(1));\n        continue;\n      }\n      return absolute_unique_directory_path;")], []),
    ("io-dir-refactor-while", [("Auxillary/Input_Output/Input_output.cpp", "    for (int counter = 0; counter != number_of_tries; ++counter) {\n      std::filesystem::path absolute", "    int counter = 0;\n    while (counter++ < number_of_tries) {\n      std::filesystem::path absolute")], []),
    ("io-noexc", [(CMD, "        o.exceptions(std::ofstream::failbit | std::ofstream::badbit);\n        o << states_output_json", "        o << states_output_json")], ["C12"]),
    ("io-mask", [(CMD, "        o.exceptions(std::ofstream::failbit | std::ofstream::badbit);\n        o << states_output_json", "        o.exceptions(std::ofstream::badbit);\n        o << states_output_json")], ["C12"]),
    ("io-noclose", [(CMD, "        o << control_output_json.dump(1, '\\t');\n        o.close();", "        o << control_output_json.dump(1, '\\t');")], ["C12"]),
    ("io-schema", [("Auxillary/json_schema/schema_generation.cpp", "      ofs.exceptions(std::ofstream::failbit | std::ofstream::badbit);\n      ofs <<", "      ofs <<")], ["C12"]),
    ("io-swallow", [(CMD, "        o << \"Printing to control output file failed with error message:\"", "        std::cerr << \"Printing to control output file failed with error message:\""), (CMD, "          << \"\\n###############################################\\n\\n\";\n        throw std::runtime_error(o.str());\n      }\n\n      try {", "          << \"\\n###############################################\\n\\n\";\n      }\n\n      try {")], ["C12", "C25"]),
    ("io-copy-ec", [("Auxillary/Input_Output/Input_output.cpp", "fs::copy(problem_directory, problem_files, copyOptions);", "std::error_code ec;\n    fs::copy(problem_directory, problem_files, copyOptions, ec);")], ["C12"]),
    ("io-refactor-check", [(CMD, "        o.exceptions(std::ofstream::failbit | std::ofstream::badbit);\n        o << states_output_json.dump(1, '\\t');\n        o.close();", "        o << states_output_json.dump(1, '\\t');\n        o.close();\n        if (not o) {\n          throw std::runtime_error(\"writing failed\");\n        }")], []),
    ("io-refactor-helper", [(CMD, "        std::ofstream o(control_outputfile);\n        o.exceptions(std::ofstream::failbit | std::ofstream::badbit);\n        o << control_output_json.dump(1, '\\t');\n        o.close();", "        auto const write_checked = [](std::filesystem::path const &where, nlohmann::json const &what) {\n          std::ofstream stream;\n          stream.exceptions(std::ofstream::failbit | std::ofstream::badbit);\n          stream.open(where);\n          stream << what.dump(1, '\\t') << std::flush;\n          stream.close();\n        };\n        write_checked(control_outputfile, control_output_json);")], []),
    ("io-ec-refactor", [("Auxillary/Input_Output/Input_output.cpp", "fs::copy(problem_directory, problem_files, copyOptions);", "std::error_code ec;\n    fs::copy(problem_directory, problem_files, copyOptions, ec);\n    if (ec) {\n      gthrow({\"copy failed: \", ec.message()});\n    }")], []),
    ("bk-copy", [("Auxillary/aux_json/Aux_json.cpp", "      std::filesystem::rename(file_path, backup_path);\n      if", "      std::filesystem::copy_file(file_path, backup_path, std::filesystem::copy_options::overwrite_existing);\n      if")], []),
    ("bk-clobber", [("Auxillary/aux_json/Aux_json.cpp", "      if (std::filesystem::exists(backup_path)) {\n        gthrow(", "      if (std::filesystem::is_directory(backup_path)) {\n        gthrow(")], ["C13"]),
    ("bk-early-remove", [("Auxillary/aux_json/Aux_json.cpp", "      ofs.close();\n    } catch (...) {", "      if (had_existed) { std::filesystem::remove(backup_path); }\n      ofs.close();\n    } catch (...) {")], ["C13"]),
    ("bk-none", [("Auxillary/aux_json/Aux_json.cpp", "      std::filesystem::rename(file_path, backup_path);\n      if (not", "      if (new_json.empty()) { std::filesystem::rename(file_path, backup_path); }\n      if (new_json.empty() and not")], ["C13"]),
    ("bk-handler-remove", [("Auxillary/aux_json/Aux_json.cpp", "      if (had_existed) {\n        if (std::filesystem::exists(backup_path)) {\n          std::cout << \"rolling back", "      if (had_existed) {\n        if (not std::filesystem::exists(file_path)) {\n          std::filesystem::remove(backup_path);\n        }\n        if (std::filesystem::exists(backup_path)) {\n          std::cout << \"rolling back")], ["C13"]),
    ("bk-swallow", [("Auxillary/aux_json/Aux_json.cpp", "          std::cout << \"backup file is missing!\" << std::endl;\n        }\n      }\n      throw;", "          std::cout << \"backup file is missing!\" << std::endl;\n        }\n      }\n      if (not had_existed) {\n        throw;\n      }\n      return;")], ["C12", "C13", "C25"]),
    ("bk-refactor-temp", [("Auxillary/aux_json/Aux_json.cpp", "    // remove backup\n    if (had_existed) {\n      std::filesystem::remove(backup_path);\n    }", "    // remove backup\n    if (not had_existed) {\n      return;\n    }\n    std::filesystem::remove(backup_path);")], []),
    # ---- C17, C25
    ("err-main-zero", [("Grazer/grazer.cpp", "  return 1;\n}", "  return 0;\n}")], ["C17"]),
    ("err-main-lost", [("Grazer/grazer.cpp", "} catch (const CLI::ParseError &e) { return app.exit(e); }", "} catch (const CLI::ParseError &e) { app.exit(e); return 0; }")], ["C17", "C25"]),
    ("err-main-order", [("Grazer/grazer.cpp", "      app.parse(argc, argv);\n      return 0;\n    } catch (const CLI::ParseError &e) { return app.exit(e); }", "      app.parse(argc, argv);\n    } catch (const CLI::ParseError &e) { return app.exit(e); } catch (std::exception const &e) { std::cout << e.what() << std::endl; }\n    return 0;")], ["C17", "C25"]),
    ("err-run-code", [(CMD, "  TimePoint wall_clock_sim_end;\n", "  TimePoint wall_clock_sim_end;\n  if (not std::filesystem::exists(directory_path)) { std::cout << \"no such directory\" << std::endl; return 1; }")], ["C17"]),
    ("err-callback", [("Grazer/grazer.cpp", "[&]() { return grazer::run(grazer_dir); }", "[&]() { try { return grazer::run(grazer_dir); } catch (std::runtime_error &e) { std::cout << e.what(); return 1; } }")], ["C17", "C25"]),
    ("err-refactor-main", [("Grazer/grazer.cpp", "    try {\n      app.parse(argc, argv);\n      return 0;\n    } catch (const CLI::ParseError &e) { return app.exit(e); }\n  } catch (std::exception const &ex) {\n    std::cout << \"\\n[Error]: \" << ex.what() << std::endl;\n  }", "    int status = EXIT_SUCCESS;\n    try {\n      app.parse(argc, argv);\n    } catch (const CLI::ParseError &e) { status = app.exit(e); }\n    return status;\n  } catch (std::exception const &ex) {\n    std::cerr << \"\\n[Error]: \" << ex.what() << std::endl;\n    return EXIT_FAILURE;\n  }")], []),
    ("err-json-swallow", [("Auxillary/aux_json/Aux_json.cpp", "                << \": Couldn't load json from file: \" << file_path << std::endl;\n      throw;\n    }\n    return json_object;\n  }\n\n  nlohmann::ordered_json", "                << \": Couldn't load json from file: \" << file_path << std::endl;\n      if (json_object.is_null()) { throw; }\n    }\n    return json_object;\n  }\n\n  nlohmann::ordered_json")], ["C25"]),
    ("err-cache-true", [("Optimization_helpers/ControlStateCache.cpp", "      failed = Cacheentry{controls, state_timepoints, initial_state};\n      return false;", "      failed = Cacheentry{controls, state_timepoints, initial_state};\n      return cache.first.control == controls;")], ["C25"]),
    ("err-dropped-exception", [("Auxillary/json_schema/schema_generation.cpp", "          throw std::filesystem", "          std::filesystem")] if False else [("Auxillary/aux_json/Aux_json.cpp", "        throw std::filesystem::filesystem_error(", "        std::filesystem::filesystem_error(")], ["C25"]),
    ("err-schema-catch-all", [("Auxillary/json_schema/schema_generation.cpp", "      } catch (nlohmann::json::out_of_range &e) {", "      } catch (std::exception &e) {")], ["C25"]),
    ("err-ignored", [("Optimization_helpers/ImplicitOptimizer.cpp", "", "")] if False else [(CMD, "      if (not optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints)) {\n        gthrow({\"The simulation with the final controls failed!\"});\n      }", "      optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints);")], ["C25", "C06"]),
    ("err-builder", [("Auxillary/Exception/Exception.cpp", "  throw std::runtime_error(", "  if (o.str().size() < 100000) throw std::runtime_error(")] , ["C25"]),
    ("err-refactor-handler", [("Optimization_helpers/ControlStateCache.cpp", "      failed = Cacheentry{controls, state_timepoints, initial_state};\n      return false;\n    }\n    cache", "      failed = Cacheentry{controls, state_timepoints, initial_state};\n      bool const success = false;\n      return success;\n    }\n    cache")], []),
    # ---- C19
    ("ro-get-id", [("Model/Network/include/Idobject.hpp", "std::string const &get_id() const;", "std::string &get_id() const;"), ("Model/Network/include/Idobject.hpp", "std::unique_ptr<std::string const> const idptr", "std::unique_ptr<std::string> const idptr"), ("Model/Network/Idobject.cpp", "std::make_unique<std::string const>", "std::make_unique<std::string>"), ("Model/Network/Idobject.cpp", "  std::string const &Idobject::get_id", "  std::string &Idobject::get_id")], ["C19"]),
    ("ro-set-id", [("Model/Network/include/Idobject.hpp", "std::string const &get_id() const;", "std::string const &get_id() const;\n    void rename(std::string const &newid);"), ("Model/Network/include/Idobject.hpp", "std::unique_ptr<std::string const> const idptr", "std::unique_ptr<std::string> const idptr"), ("Model/Network/Idobject.cpp", "std::make_unique<std::string const>", "std::make_unique<std::string>"), ("Model/Network/Idobject.cpp", "  std::string const &Idobject::get_id", "  void Idobject::rename(std::string const &newid) { *idptr = newid; }\n  std::string const &Idobject::get_id")], ["C19"]),
    ("ro-move", [("Model/Network/include/Idobject.hpp", "    Idobject(Idobject const &&) = delete;\n    Idobject(Idobject &&) = delete;", "    Idobject(Idobject &&) = default;")], ["C19"]),
    ("ro-edge-copy", [("Model/Network/include/Edge.hpp", "    virtual ~Edge();", "    Edge(Edge const &other) : Idobject(other.get_id()), starting_node(other.starting_node), ending_node(other.ending_node) {}\n    virtual ~Edge();")], ["C19"]),
    ("ro-net-shared", [("Model/Networkproblem/include/Networkproblem.hpp", "std::unique_ptr<Network::Net> network;", "std::shared_ptr<Network::Net> network;")], ["C19"]),
    ("ro-at-index", [("Auxillary/InterpolatingVector/include/InterpolatingVector.hpp", "Eigen::Ref<Eigen::VectorXd const> vector_at_index(Eigen::Index index) const;", "Eigen::Map<Eigen::VectorXd> vector_at_index(Eigen::Index index) const;"), ("Auxillary/InterpolatingVector/InterpolatingVector.cpp", "  Eigen::Ref<Eigen::VectorXd const>\n  InterpolatingVector_Base::vector_at_index", "  Eigen::Map<Eigen::VectorXd>\n  InterpolatingVector_Base::vector_at_index"), ("Auxillary/InterpolatingVector/InterpolatingVector.cpp", "    return get_allvalues().segment(start_index, inner_length);\n  }\n\n  double", "    return Eigen::Map<Eigen::VectorXd>(const_cast<double *>(get_allvalues().data()) + start_index, inner_length);\n  }\n\n  double")], ["C19"]),
    ("ro-constmapped", [("Auxillary/InterpolatingVector/InterpolatingVector.cpp", "    gthrow(\n        {\"You are trying to get a mutable reference to mapped values in \",", "    if (mapped_values.size() > 0) { return Eigen::Map<Eigen::VectorXd>(const_cast<double *>(mapped_values.data()), mapped_values.size()); }\n    gthrow(\n        {\"You are trying to get a mutable reference to mapped values in \",")], ["C19"]),
    ("ro-constmapped-ccast", [("Auxillary/InterpolatingVector/InterpolatingVector.cpp", "    gthrow(\n        {\"You are trying to get a mutable reference to mapped values in \",", "    if (mapped_values.size() > 0) { return Eigen::Map<Eigen::VectorXd>((double *)(mapped_values.data()), mapped_values.size()); }\n    gthrow(\n        {\"You are trying to get a mutable reference to mapped values in \",")], ["C19"]),
    ("ro-mapped-copy", [("Auxillary/InterpolatingVector/include/InterpolatingVector.hpp", "MappedInterpolatingVector(MappedInterpolatingVector const &other) = delete;", "MappedInterpolatingVector(MappedInterpolatingVector const &other) = default;")], ["C19"]),
    ("ro-setzero-const", [("Auxillary/InterpolatingVector/include/InterpolatingVector.hpp", "    Eigen::Map<Eigen::VectorXd> mapped_values;", "    Eigen::Map<Eigen::VectorXd> mapped_values;\n  public:\n    void clear() const { Eigen::Ref<Eigen::VectorXd> r(mapped_values); r[0] = 0.0; }")], ["C19"]),
    ("ro-mut-const", [("Auxillary/InterpolatingVector/include/InterpolatingVector.hpp", "    Eigen::Map<Eigen::VectorXd> mapped_values;", "    Eigen::Map<Eigen::VectorXd> mapped_values;\n  public:\n    Eigen::Ref<Eigen::VectorXd> storage() const { return mapped_values; }")], ["C19"]),
    ("ro-refactor", [("Auxillary/InterpolatingVector/InterpolatingVector.cpp", "    return get_allvalues().segment(start_index, inner_length);\n  }\n\n  double", "    auto const &all = get_allvalues();\n    return all.segment(start_index, inner_length);\n  }\n\n  double"), ("Auxillary/InterpolatingVector/InterpolatingVector.cpp", "  void InterpolatingVector_Base::setZero() { allvalues().setZero(); }", "  void InterpolatingVector_Base::setZero() { auto v = allvalues(); v.setZero(); }"), ("Model/Network/include/Idobject.hpp", "std::unique_ptr<std::string const> const idptr", "std::string const name"), ("Model/Network/Idobject.cpp", "idptr(std::make_unique<std::string const>(_id))", "name(_id)"), ("Model/Network/Idobject.cpp", "get_id() const { return (*idptr); }", "get_id() const { return name; }"), ("Model/Network/Idobject.cpp", "get_id_copy() const { return (*idptr); }", "get_id_copy() const { return name; }")], []),
    # ---- C22
    ("unit-factor", [("Auxillary/unit_conversion/unit_conversion.cpp", "0.028349523125", "0.28349523125")], ["C22"]),
    ("unit-micro", [("Auxillary/unit_conversion/unit_conversion.cpp", '{"mu", 1e-6}', '{"mu", 1e-9}')], ["C22"]),
    ("unit-prefix-after-offset", [("Auxillary/unit_conversion/unit_conversion.cpp", "    return conv(\n        measurement[\"value\"].get<double>()\n        * parse_prefix_si(prefix, exponent));", "    return conv(\n        measurement[\"value\"].get<double>())\n        * parse_prefix_si(prefix, exponent);")], ["C22"]),
    ("unit-novalidate", [("Auxillary/unit_conversion/unit_conversion.cpp", "    Aux::schema::validate_json(measurement, this->get_schema());\n", "")], ["C22"]),
    ("unit-prefixmatch", [("Auxillary/unit_conversion/unit_conversion.cpp", "          and unit.compare(unit_size - symb_size, symb_size, str_unit)\n                  == 0) { // match", "          and unit.find(str_unit) != std::string::npos) { // match")], ["C22"]),
    ("unit-unanchored", [("Auxillary/unit_conversion/unit_conversion.cpp", 'pattern1["pattern"] = "^" + simple_pattern', 'pattern1["pattern"] = simple_pattern')], ["C22"]),
    ("unit-ambiguous", [("Auxillary/unit_conversion/unit_conversion.cpp", '{"N", 1.0}', '{"N", 1.0}, {"nN", 1.0}')], []),
    ("unit-refactor", [("Auxillary/unit_conversion/unit_conversion.cpp", "    auto unit_size = unit.size();\n    for (auto const &[str_unit, val] : unit_map) {\n      auto symb_size = str_unit.size();", "    auto unit_size = unit.size();\n    for (auto it = unit_map.begin(); it != unit_map.end(); ++it) {\n      auto const &str_unit = it->first;\n      auto const &val = it->second;\n      auto symb_size = str_unit.size();"), ("Auxillary/unit_conversion/unit_conversion.cpp", "    std::ostringstream regex_stream;\n    regex_stream << \"(\";\n    for (auto [item, _] : map) {\n      for (auto character : item) {\n        if (character == '^') {\n          regex_stream << \"\\\\\";\n        }\n        regex_stream << character;\n      }\n      regex_stream << \"|\";\n    }\n    std::string regex = regex_stream.str();\n    regex.pop_back();\n    return regex + \")\";", "    std::string regex;\n    for (auto const &entry : map) {\n      regex += regex.empty() ? \"(\" : \"|\";\n      for (auto character : entry.first) {\n        if (character == '^') {\n          regex += '\\\\';\n        }\n        regex.push_back(character);\n      }\n    }\n    return regex + \")\";")], []),
    # ---- C14
    ("in-order", [("Model/Componentfactory/include/Componentfactory.hpp", "      Aux::schema::apply_defaults(topology, topology_schema);\n      // order is important (defaults can be required!)\n      Aux::schema::validate_json(topology, topology_schema);\n      check_class_hierarchy_properties<ConcreteEdge>();", "      Aux::schema::validate_json(topology, topology_schema);\n      Aux::schema::apply_defaults(topology, topology_schema);\n      check_class_hierarchy_properties<ConcreteEdge>();")], ["C14"]),
    ("in-edge-novalidate", [("Model/Componentfactory/include/Componentfactory.hpp", "      Aux::schema::validate_json(topology, topology_schema);\n      check_class_hierarchy_properties<ConcreteEdge>();", "      check_class_hierarchy_properties<ConcreteEdge>();")], ["C14"]),
    ("in-copy", [("Model/Componentfactory/include/Componentfactory.hpp", "      Aux::schema::validate_json(topology, topology_schema);\n\n", "      nlohmann::json completed = topology;\n      Aux::schema::apply_defaults(completed, topology_schema);\n      Aux::schema::validate_json(completed, topology_schema);\n\n"), ("Model/Componentfactory/include/Componentfactory.hpp", "      Aux::schema::apply_defaults(topology, topology_schema);\n", "")], ["C14"]),
    ("in-noexternal", [("Model/Componentfactory/include/Componentfactory.hpp", "      nlohmann::json topology_schema = get_schema(\n          /*allow_required_defaults=*/true, /*include_external=*/true);", "      nlohmann::json topology_schema = get_schema(\n          /*allow_required_defaults=*/true, /*include_external=*/false);")], ["C14"]),
    ("in-skip-if-empty", [("Model/Componentfactory/include/Componentfactory.hpp", "      Aux::schema::validate_json(topology, topology_schema);\n\n", "      if (not defaults.empty()) {\n        Aux::schema::validate_json(topology, topology_schema);\n      }\n\n")], ["C14"]),
    ("in-handler-silent", [("Auxillary/json_schema/schema_validation.cpp", "        throw std::invalid_argument(\n            std::string(\"At \") + ptr.to_string() + \" of \"\n            + instance.dump(1, '\\t') + \" - \" + message + \"\\n\");", "          std::cout << \"At \" << ptr.to_string() << \" of \" << instance << \" - \" << message << std::endl;")], ["C14"]),
    ("in-rethrow-id", [("Auxillary/json_schema/schema_validation.cpp", "    o << e.what() << \"\\n\";\n    throw std::runtime_error(o.str());\n  }\n\n  // debugging", "    o << e.what() << \"\\n\";\n    if (data.contains(\"id\")) throw std::runtime_error(o.str());\n    std::cout << o.str();\n  }\n\n  // debugging")], ["C14", "C25"]),
    ("in-default-overwrites", [("Auxillary/json_schema/schema_validation.cpp", "value.contains(\"default\") and (not data.contains(key))", "value.contains(\"default\")")], ["C14"]),
    ("in-default-shallow", [("Auxillary/json_schema/schema_validation.cpp", "      apply_defaults_unsafe(data[key], value[\"properties\"]);", "      auto sub = data[key];\n      apply_defaults_unsafe(sub, value[\"properties\"]);")], ["C14"]),
    ("in-bypass", [("Model/Netfactory/Netfactory.cpp", "          auto current_node = nodetype->make_instance(node);\n", "          auto current_node = node.contains(\"boundary_values\") ? nodetype->make_instance(node) : std::make_unique<Network::Node>(node);\n")], ["C16"]),
    ("in-refactor-helper", [("Model/Componentfactory/include/Componentfactory.hpp", "  template <typename ConcreteNode>\n  struct NodeType final", "  inline void complete_and_check(nlohmann::json &data, nlohmann::json const &schema) {\n    Aux::schema::apply_defaults(data, schema);\n    Aux::schema::validate_json(data, schema);\n  }\n  template <typename C>\n  std::unique_ptr<Network::Node> build_it(nlohmann::json const &data) {\n    auto result = std::make_unique<C>(data);\n    return result;\n  }\n\n  template <typename ConcreteNode>\n  struct NodeType final"), ("Model/Componentfactory/include/Componentfactory.hpp", "      Aux::schema::apply_defaults(topology, topology_schema);\n      // order is important (defaults can be required!)\n      Aux::schema::validate_json(topology, topology_schema);\n\n      check_class_hierarchy_properties<ConcreteNode>();\n      return std::make_unique<ConcreteNode>(topology);", "      complete_and_check(topology, topology_schema);\n      check_class_hierarchy_properties<ConcreteNode>();\n      return build_it<ConcreteNode>(topology);")], []),
    # ---- C15
    ("key-dropped", [("Model/Networkproblem/Gas/Pipe.cpp", "    Aux::schema::add_required(\n        schema, \"desired_delta_x\", Aux::schema::type::number());", "    Aux::schema::add_property(\n        schema, \"desired_delta_x\", Aux::schema::type::number());")], ["C15"]),
    ("key-type", [("Model/Networkproblem/Gas/Pipe.cpp", "schema, \"desired_delta_x\", Aux::schema::type::number()", "schema, \"desired_delta_x\", Aux::schema::type::string()")], ["C15"]),
    ("key-new-read", [("Model/Networkproblem/Gas/Pipe.cpp", "      Network::Edge(topology, nodes),\n", "      Network::Edge(topology, nodes),\n"), ("Model/Networkproblem/Gas/Pipe.cpp", "      scheme{Scheme::make_threepointscheme<2>(topology)} {}", "      scheme{Scheme::make_threepointscheme<2>(topology)} {\n    if (topology[\"maximal_velocity\"].get<double>() < 0) { throw std::runtime_error(\"negative\"); }\n  }")], ["C15"]),
    ("key-setup", [("Auxillary/json_schema/make_schema.cpp", "    add_required(interpolation_point, \"x\", type::number(\"Interpolation Point\"));", "    add_property(interpolation_point, \"x\", type::number(\"Interpolation Point\"));")], ["C15"]),
    ("key-optional-ok", [("Model/Networkproblem/Gas/Pipe.cpp", "      scheme{Scheme::make_threepointscheme<2>(topology)} {}", "      scheme{Scheme::make_threepointscheme<2>(topology)} {\n    if (topology.contains(\"maximal_velocity\") and topology[\"maximal_velocity\"].is_number() and topology[\"maximal_velocity\"].get<double>() < 0) { throw std::runtime_error(\"negative\"); }\n  }")], []),
    # ---- C16
    ("type-name", [("Model/Networkproblem/Gas/Shortpipe.cpp", "{ return \"Shortpipe\"; }", "{ return \"Pipe\"; }")], ["C16"]),
    ("type-foreign-schema", [("Model/Componentfactory/include/Componentfactory.hpp", "      nlohmann::json schema = ConcreteEdge::get_schema();", "      nlohmann::json schema = Network::Edge::get_schema();")], ["C16"]),
    ("type-unknown-warn", [("Model/Netfactory/Netfactory.cpp", "        gthrow(\n            {\"The edge type \", edgetypename,\n             \", given in the topology file, is unknown to grazer.\"});", "        std::cout << \"The edge type \" << edgetypename << \" is unknown\";")], ["C16"]),
    ("type-defaults-name", [("Model/Componentfactory/include/Componentfactory.hpp", "        defaults(all_defaults.value(ConcreteNode::get_type(), R\"({})\"_json)){};", "        defaults(all_defaults.value(\"defaults\", R\"({})\"_json)){};")], ["C16"]),
    ("type-initial", [("Model/Componentfactory/Componentfactory.cpp", "    auto &edge_schemas\n        = initial_schema[\"properties\"][\"connections\"][\"properties\"];", "    auto &edge_schemas\n        = initial_schema[\"properties\"][\"nodes\"][\"properties\"];")], ["C16"]),
    ("type-refactor", [("Model/Netfactory/Netfactory.cpp", "    for (auto const &[nodetypename, ignored] : node_topology.items()) {\n\n      auto type_itr = nodetypemap.find(nodetypename);\n      if (type_itr == nodetypemap.end()) {", "    for (auto it = node_topology.begin(); it != node_topology.end(); ++it) {\n      std::string const nodetypename = it.key();\n      if (nodetypemap.count(nodetypename) == 0) {"), ("Model/Componentfactory/Componentfactory.cpp", "    this->node_type_map.insert({nodeType->get_name(), std::move(nodeType)});", "    auto name = nodeType->get_name();\n    node_type_map.emplace(name, std::move(nodeType));")], []),
    # ---- C20
    ("net-selfloop", [("Model/Network/Edge.cpp", "    if (starting_node == ending_node) {\n      gthrow({\"cannot create an edge from a node to itself!\"});\n    }\n", "")], ["C20"]),
    ("net-swapped", [("Model/Network/Edge.cpp", "    starting_node->attach_starting_edge(this);\n    ending_node->attach_ending_edge(this);", "    ending_node->attach_ending_edge(this);\n    starting_node->attach_ending_edge(this);")], ["C20"]),
    ("net-check-direction", [("Model/Network/Node.cpp", "    if (to_attach->get_ending_node() != this) {\n      return false;\n    }\n", "")], []),
    ("net-remove-both", [("Model/Network/Node.cpp", "      if ((*it) == to_remove) {\n        attached_edges->ending_edges.erase(it);", "      if ((*it)->get_starting_node() == to_remove->get_starting_node()) {\n        attached_edges->ending_edges.erase(it);")], []),
    ("net-dup-ids", [("Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp", "    std::sort(\n        sorted_component_id_vector.begin(), sorted_component_id_vector.end());\n", "")], ["C20"]),
    ("net-refactor", [("Model/Network/Edge.cpp", "    if (starting_node == ending_node) {\n      gthrow({\"cannot create an edge from a node to itself!\"});\n    }\n    starting_node->attach_starting_edge(this);\n    ending_node->attach_ending_edge(this);", "    bool const loop = ending_node->get_id() == starting_node->get_id();\n    if (loop) {\n      gthrow({\"cannot create an edge from a node to itself!\"});\n    }\n    ending_node->attach_ending_edge(this);\n    starting_node->attach_starting_edge(this);")], []),
    ("opt-newx-derivs", [("IpoptWrapper/ImplicitOptimizer.cpp", "    states_up_to_date = false;\n    derivatives_up_to_date = false;\n  }", "    states_up_to_date = false;\n  }")], ["C06"]),
    ("opt-newx-states", [("IpoptWrapper/ImplicitOptimizer.cpp", "    states_up_to_date = false;\n    derivatives_up_to_date = false;\n  }", "    derivatives_up_to_date = false;\n  }")], ["C06"]),
    ("opt-valid-early", [("IpoptWrapper/ImplicitOptimizer.cpp", "    // Here we go backwards through the timesteps:\n    {", "    derivatives_up_to_date = true;\n    {")], ["C06"]),
    ("opt-cache-true", [("Optimization_helpers/ControlStateCache.cpp", "      failed = Cacheentry{controls, state_timepoints, initial_state};\n      return false;", "      failed = Cacheentry{controls, state_timepoints, initial_state};\n      return states.size() > 0;")], ["C06"]),
    ("opt-flag-before", [("IpoptWrapper/ImplicitOptimizer.cpp", "    // get states:\n    if (not states_up_to_date) {\n      auto could_compute_states = cache->refresh_cache(\n          *problem, controls, state_timepoints, initial_state);\n      if (not could_compute_states) {\n        if (ipoptcontrols == get_initial_controls()) {\n          std::cout << \"FAILED to compute the states out of the initial \"\n                       \"controls!\\n\\n This means the simulation to satisfy the \"\n                       \"equality constraints at the initial point failed!\"\n                    << std::endl;\n        }\n        return false;\n      } else {\n        states_up_to_date = true;\n      }\n    }\n    auto &states = cache->get_cached_states();\n\n    Aux::MappedInterpolatingVector constraints(", "    // get states:\n    if (not states_up_to_date) {\n      states_up_to_date = true;\n      auto could_compute_states = cache->refresh_cache(\n          *problem, controls, state_timepoints, initial_state);\n      if (not could_compute_states) {\n        return false;\n      }\n    }\n    auto &states = cache->get_cached_states();\n\n    Aux::MappedInterpolatingVector constraints(")], ["C06"]),
    ("opt-g-newx", [("IpoptWrapper/Wrapper.cpp", "    if (new_x) {\n      optimizer->new_x();\n    }\n    Eigen::Map<Eigen::VectorXd const> controls(x, number_of_controls);\n    Eigen::Map<Eigen::VectorXd> constraints(g", "    Eigen::Map<Eigen::VectorXd const> controls(x, number_of_controls);\n    Eigen::Map<Eigen::VectorXd> constraints(g")], ["C06"]),
    ("opt-final-newx", [("IpoptWrapper/Wrapper.cpp", "    // the point evaluated last need not be the solution:\n    optimizer->new_x();\n", "")], ["C06"]),
    ("opt-lu-ignored", [("IpoptWrapper/ImplicitOptimizer.cpp", "          xi_f = solver.solve(rhs_f);\n          if (solver.info() != Eigen::Success) {", "          xi_f = solver.solve(rhs_f);\n          if (xi_f.size() == 0) {")], ["C06"]),
    ("opt-helper", [("IpoptWrapper/Wrapper.cpp", "    if (new_x) {\n      optimizer->new_x();\n    }\n    Eigen::Map<Eigen::VectorXd const> controls(x, number_of_controls);\n    Eigen::Map<Eigen::VectorXd> constraints(g", "    auto renew = [this](bool needed) { if (not needed) { return; } optimizer->new_x(); };\n    renew(new_x);\n    Eigen::Map<Eigen::VectorXd const> controls(x, number_of_controls);\n    Eigen::Map<Eigen::VectorXd> constraints(g")], []),
    ("data-swap", [("Model/Networkproblem/Networkproblem.cpp", "controlcomponents[static_cast<size_t>(index)]->set_upper_bounds(", "controlcomponents[static_cast<size_t>(index)]->set_lower_bounds(")], ["C10"]),
    ("data-roles", [("Optimization_helpers/Optimization_helpers.cpp", "problem.set_upper_bounds(upper_bounds, upper_bounds_json);", "problem.set_upper_bounds(upper_bounds, lower_bounds_json);")], ["C10"]),
    ("data-file", [("Grazer/commands.cpp", "/ std::filesystem::path(\"constraint_upper_bounds.json\")", "/ std::filesystem::path(\"constraint_lower_bounds.json\")")], ["C10"]),
    ("data-missing", [("Model/Networkproblem/Networkproblem.cpp", "        for (auto additional_id_index = id_index;", "        for (auto additional_id_index = id_index + 1;")], ["C10"]),
    ("data-order", [("Model/Networkproblem/Networkproblem.cpp", "    check_components_in_json(controlcomponents, control_json, \"control.json\");", "    check_components_in_json(controlcomponents, control_json, \"control.json\");\n    std::sort(ids.begin(), ids.end());")], ["C10"]),
    ("data-time", [("Model/Networkproblem/Componentclasses/SimpleControlcomponent.cpp", "          = initialvalues(timepoint);", "          = initialvalues(timepoints[0]);")], ["C10"]),
    ("data-start", [("Model/Networkproblem/Componentclasses/SimpleConstraintcomponent.cpp", "component->get_constraint_startindex(), number_of_indices_per_step)", "0, number_of_indices_per_step)")], ["C10"]),
    ("data-loop", [("Model/Networkproblem/Networkproblem.cpp", "          if (iterator != ids.end()) {\n            auto index = iterator - ids.begin();\n            controlcomponents[static_cast<size_t>(index)]->set_lower_bounds(\n                full_lower_bound_vector, componentjson);\n          }", "          if (iterator == ids.end()) {\n            continue;\n          }\n          auto *chosen = controlcomponents[static_cast<size_t>(std::distance(ids.begin(), iterator))];\n          chosen->set_lower_bounds(full_lower_bound_vector, componentjson);")], []),
    ("data-opt-ctor", [("IpoptWrapper/ImplicitOptimizer.cpp", "          _initial_controls, _lower_bounds, _upper_bounds,\n          _constraint_lower_bounds, _constraint_upper_bounds)),", "          _initial_controls, _upper_bounds, _lower_bounds,\n          _constraint_lower_bounds, _constraint_upper_bounds)),")], ["C10"]),
    ("data-wrapper", [("IpoptWrapper/Wrapper.cpp", "    constraint_upper_bounds = optimizer->get_constraint_upper_bounds();", "    constraint_upper_bounds = optimizer->get_constraint_lower_bounds();")], ["C10"]),
    ("der-weight", [("IpoptWrapper/ImplicitOptimizer.cpp", "          df_dui += integral_weights[state_index] * df_dcontrol;", "          df_dui += integral_weights[state_index - 1] * df_dcontrol;")], ["C07"]),
    ("der-lambda", [("IpoptWrapper/ImplicitOptimizer.cpp", "                += (1 - lambda) * df_dui;", "                += lambda * df_dui;")], ["C07"]),
    ("der-last-weight", [("IpoptWrapper/ImplicitOptimizer.cpp", "    front(coefficients) = 0.5 * (timepoints[1] - timepoints[0]);", "    front(coefficients) = 0.4 * (timepoints[1] - timepoints[0]);")], []),
    ("der-adjoint-time", [("IpoptWrapper/ImplicitOptimizer.cpp", "    double last_time = state_timepoints[state_index - 1];\n    double new_time = state_timepoints[state_index];\n\n    Aux::Coeffrefhandler<Aux::Transposed> last_handler", "    double new_time = state_timepoints[state_index];\n    double last_time = new_time - (state_timepoints[1] - state_timepoints[0]);\n\n    Aux::Coeffrefhandler<Aux::Transposed> last_handler")], ["C07"]),
    ("der-constraint-rhs", [("IpoptWrapper/ImplicitOptimizer.cpp", "            current_rhs.noalias() = -dE_dlast_transposed * current_Xi;", "            current_rhs.noalias() = -dE_dlast_transposed * middle_col_block(full_Xi_row, constraint_index);")], ["C07"]),
    ("der-constraint-direct", [("IpoptWrapper/ImplicitOptimizer.cpp", "              middle_row_block(full_dg_dui, constraint_index) += dg_dcontrol;", "              middle_row_block(full_dg_dui, constraint_index) = dg_dcontrol;")], ["C07"]),
    ("der-penalty-control", [("IpoptWrapper/ImplicitOptimizer.cpp", "    problem->d_evaluate_penalty_d_control(\n        fcontrol_handler, time, states(time), controls(time));\n  }", "    problem->d_evaluate_penalty_d_control(\n        fcontrol_handler, time, states(time), controls(front(state_timepoints)));\n  }")], ["C07"]),
    ("der-index-lambda", [("Optimization_helpers/Optimization_helpers.cpp", "= std::lower_bound(timepoints.begin(), timepoints.end(), time);", "= std::upper_bound(timepoints.begin(), timepoints.end() - 1, time);")], ["C07", "C23"]),
    ("der-index-begin", [("Optimization_helpers/Optimization_helpers.cpp", "    double lambda = (time - time_lower) / (time_upper - time_lower);", "    double lambda = (time_upper - time) / (time_upper - time_lower);")], ["C07"]),
    ("der-dlast-state", [("IpoptWrapper/ImplicitOptimizer.cpp", "        last_handler, last_time, new_time, states(last_time), states(new_time),\n        controls(new_time));\n\n    Aux::Coeffrefhandler control_handler(dE_dcontrol);", "        last_handler, last_time, new_time, states(last_time), states(new_time),\n        controls(last_time));\n\n    Aux::Coeffrefhandler control_handler(dE_dcontrol);")], ["C07"]),
    ("der-helper", [("IpoptWrapper/ImplicitOptimizer.cpp", "          rhs_f -= integral_weights[state_index] * df_dnew_transposed;\n          xi_f = solver.solve(rhs_f);", "          double const weight = integral_weights[state_index];\n          for (Eigen::Index i = 0; i != rhs_f.size(); ++i) {\n            rhs_f[i] -= weight * df_dnew_transposed.coeff(i, 0);\n          }\n          xi_f = solver.solve(rhs_f);")], []),
    ("jac-order", [("IpoptWrapper/ConstraintJacobian.cpp", "          Rowindices[index] = static_cast<int>(innerrow);\n          Colindices[index] = static_cast<int>(innercol);", "          Rowindices[index] = static_cast<int>(rowoffset + (index - column_values_start(j)) % get_inner_col_height(j));\n          Colindices[index] = static_cast<int>(columnoffset + (index - column_values_start(j)) / get_inner_col_height(j));")], ["C23", "C07"]),
    ("jac-left-out", [("IpoptWrapper/ConstraintJacobian.cpp", "      } else if (constrainttimes[constraint_index] > last_controltime) {", "      } else if (constrainttimes[constraint_index] >= last_controltime + 1) {")], ["C23"]),
    ("jac-too-few", [("IpoptWrapper/ConstraintJacobian.cpp", "          last_controltime = controltimes[control_index];", "          last_controltime = controltimes[control_index] + 0.5;")], ["C23"]),
    ("jac-ge", [("IpoptWrapper/ConstraintJacobian.cpp", "        last_height = constraint_interpolationpoints.size() - constraint_index;", "        last_height = constraint_interpolationpoints.size() - constraint_index - (constrainttimes[constraint_index] - last_controltime < 0.75 and constraint_index > 0);")], ["C23"]),
    ("jac-rowstart", [("IpoptWrapper/ConstraintJacobian.cpp", "    return get_outer_rowstart(column) * get_block_height();", "    return get_outer_rowstart(column) * get_block_width();")], ["C23", "C07"]),
    ("jac-assign-square", [("IpoptWrapper/ConstraintJacobian.cpp", "    if (this->block_height != other.block_height) {", "    if (this->get_block_size() != other.get_block_size()) {")], []),
    ("jac-assign", [("IpoptWrapper/ConstraintJacobian.cpp", "    if (this->block_column_offsets != other.block_column_offsets) {", "    if (this->nonZeros() != other.nonZeros()) {")], ["C23"]),
    ("mh-transposed", [("Auxillary/Matrixhandler/Matrixhandler.cpp", "    matrix.coeffRef(actual_row, actual_col) += value;", "    matrix.coeffRef(row, col) += value;")], ["C28", "C07", "C06"]),
    ("mh-overwrite", [("Auxillary/Matrixhandler/Matrixhandler.cpp", "    matrix.coeffRef(actual_row, actual_col) += value;", "    matrix.coeffRef(actual_row, actual_col) = value;")], ["C28"]),
    ("mh-notzero", [("Auxillary/Matrixhandler/Matrixhandler.cpp", "    coefficients.setZero();", "    if (_matrix.nonZeros() != 2) {\n      coefficients.setZero();\n    }")], ["C28"]),
    ("mh-iter", [("Auxillary/Matrixhandler/Matrixhandler.cpp", "    Eigen::Map<Eigen::VectorXd> coefficients(\n        _matrix.valuePtr(), _matrix.nonZeros());\n    coefficients.setZero();", "    for (Eigen::Index k = 0; k != _matrix.outerSize(); ++k) {\n      for (Eigen::SparseMatrix<double>::InnerIterator it(_matrix, k); it; ++it) {\n        it.valueRef() = 0.0;\n      }\n    }")], []),
    ("mh-keep", [("Auxillary/Matrixhandler/Matrixhandler.cpp", "    tripletlist.clear();", "")], []),
    # ---- C21
    ("seed-short", [("Auxillary/Stochastics/Normaldistribution.cpp", "        seed.begin(), seed.end());", "        seed.begin(), seed.begin() + 7);")], ["C21"]),
    ("seed-static", [("Auxillary/Stochastics/Normaldistribution.cpp", "    pcg64 rng(seed_source);\n\n    return rng;", "    static pcg64 rng(seed_source);\n\n    return rng;")], ["C21"]),
    ("seed-default", [("Auxillary/Stochastics/Normaldistribution.cpp", "    pcg64 rng(seed_source);", "    pcg64 rng;")], ["C21"]),
    ("seed-sorted", [("Auxillary/Stochastics/Normaldistribution.cpp", "    used_seed = seed;", "    used_seed = seed;\n    for (auto &word : used_seed) {\n      word %= 2147483648u;\n    }")], ["C21"]),
    ("seed-16bit", [("Model/Networkproblem/Power/StochasticPQnode.cpp", ".get<std::array<uint32_t, Aux::pcg_seed_count>>());", ".get<std::array<uint32_t, Aux::pcg_seed_count>>());\n      stochasticdata->distribution = Aux::Normaldistribution(used_seed);")], ["C21"]),
    ("seed-again", [("Model/Networkproblem/Power/StochasticPQnode.cpp", "    auto last_Q = Q(last_state);\n    current_Q", "    auto last_Q = Q(last_state);\n    std::array<uint32_t, Aux::pcg_seed_count> used_seed;\n    stochasticdata->distribution = Aux::Normaldistribution(used_seed);\n    current_Q")], ["C21"]),
    ("seed-setup", [("Model/Networkproblem/Componentclasses/Statecomponent.cpp", "    output_json[\"id\"] = id;", "    output_json.clear();\n    output_json[\"id\"] = id;")], ["C21"]),
    ("seed-uninit", [("Model/Networkproblem/Power/StochasticPQnode.cpp", "    output[\"seed\"] = used_seed;", "    if (topology[\"boundary_values\"].contains(\"seed\")) {\n      output[\"seed\"] = topology[\"boundary_values\"][\"seed\"];\n    } else {\n      output[\"seed\"] = Aux::make_random_seed();\n    }")], ["C21"]),
    ("seed-clock", [("Model/Problemlayer/Timeevolver.cpp", "#include", "#include <chrono>\n#include"), ("Model/Problemlayer/Timeevolver.cpp", "        gthrow({\"Failed timestep irrevocably!\"", "        last_time = std::chrono::steady_clock::now().time_since_epoch().count() % 2 ? last_time : new_time;\n        gthrow({\"Failed timestep irrevocably!\"")], ["C21"]),
    ("seed-timing", [("Model/Problemlayer/Timeevolver.cpp", "#include", "#include <chrono>\n#include <iostream>\n#include"), ("Model/Problemlayer/Timeevolver.cpp", "      last_time = new_time;", "      auto const stamp = std::chrono::steady_clock::now();\n      if (i < 0) {\n        std::cout << stamp.time_since_epoch().count() << std::endl;\n      }\n      last_time = new_time;")], []),
    ("seed-loopcopy", [("Auxillary/Stochastics/Normaldistribution.cpp", "    randutils::seed_seq_fe<pcg_seed_count, uint32_t> seed_source(\n        seed.begin(), seed.end());\n\n    pcg64 rng(seed_source);\n\n    return rng;", "    using source = randutils::seed_seq_fe<pcg_seed_count, uint32_t>;\n    auto make_engine = [&]() {\n      source words(seed.begin(), seed.end());\n      return pcg64(words);\n    };\n    return make_engine();")], []),
    ("seed-given-local", [("Model/Networkproblem/Power/StochasticPQnode.cpp", "    auto &output = get_output_json_ref();\n    output[\"seed\"] = used_seed;", "    auto &result = get_output_json_ref();\n    nlohmann::json words = nlohmann::json::array();\n    for (auto word : used_seed) {\n      words.push_back(word);\n    }\n    result[\"seed\"] = words;")], []),
    # ---- C34
    ("oup-last", [("Auxillary/Stochastics/include/Stochastic.hpp", "theta * (mu - current_value) * stochastic_stepsize", "theta * (mu - last_value) * stochastic_stepsize")], ["C34"]),
    ("oup-step", [("Auxillary/Stochastics/include/Stochastic.hpp", "distribution.get_sample(sqrt(stochastic_stepsize))", "distribution.get_sample(stochastic_stepsize)")], ["C34"]),
    ("oup-negative", [("Auxillary/Stochastics/include/Stochastic.hpp", "          sgn(mu) * current_value > (1.0 + cut_off_factor) * sgn(mu) * mu) {", "          current_value > (1.0 + cut_off_factor) * mu) {")], ["C34"]),
    ("oup-after", [("Auxillary/Stochastics/include/Stochastic.hpp", "      if (sgn(mu) * current_value <", "      if (i + 1 == number_of_stochastic_steps and sgn(mu) * current_value <")], ["C34"]),
    ("oup-unstable", [("Auxillary/Stochastics/include/Stochastic.hpp", "    number_of_stochastic_steps = compute_stable_number_of_oup_steps(\n        stability_parameter, theta, delta_t, number_of_stochastic_steps);\n    double stochastic_stepsize = delta_t / number_of_stochastic_steps;", "    double stochastic_stepsize = delta_t / number_of_stochastic_steps;\n    number_of_stochastic_steps = compute_stable_number_of_oup_steps(\n        stability_parameter, theta, delta_t, number_of_stochastic_steps);")], ["C34"]),
    ("oup-count", [("Auxillary/Stochastics/Stochastic.cpp", "          = static_cast<int>(std::ceil(theta * delta_t / (stability_parameter)))\n            + 1;", "          = static_cast<int>(std::ceil(theta * delta_t / (stability_parameter)));")], ["C34"]),
    ("oup-range", [("Auxillary/Stochastics/Stochastic.cpp", "stability_parameter >= 2", "stability_parameter > 2")], ["C34"]),
    ("oup-thetaQ", [("Model/Networkproblem/Power/StochasticPQnode.cpp", "        last_Q, stochasticdata->theta_Q, boundaryvalue(new_time)[1],\n        new_time - last_time, stochasticdata->sigma_Q,", "        last_Q, stochasticdata->theta_Q, boundaryvalue(last_time)[1],\n        new_time - last_time, stochasticdata->sigma_Q,")], ["C34"]),
    ("oup-init-order", [("Model/Networkproblem/Power/include/StochasticPQnode.hpp", "          sigma_Q(_sigma_Q),\n          theta_Q(_theta_Q),\n          number_of_stochastic_steps(_number_of_stochastic_steps) {}\n\n      StochasticData(", "          sigma_Q(_sigma_P),\n          theta_Q(_theta_Q),\n          number_of_stochastic_steps(_number_of_stochastic_steps) {}\n\n      StochasticData(")], ["C34"]),
    ("oup-trunc", [("Auxillary/Stochastics/Normaldistribution.cpp", "      if (sample >= lower_bound and sample <= upper_bound) {", "      if (sample >= lower_bound or sample <= upper_bound) {")], ["C34"]),
    ("oup-trunc-default", [("Auxillary/Stochastics/Normaldistribution.cpp", "    double lower_bound = mean - 2 * standard_deviation;\n    double upper_bound = mean + 2 * standard_deviation;\n    return get_sample(mean, standard_deviation, lower_bound, upper_bound);\n  }\n\n  double Truncatednormaldist::get_sample(\n      double standard_deviation, double lower", "    double lower_bound = mean - 2 * standard_deviation;\n    double upper_bound = mean + 2 * standard_deviation;\n    return get_sample(standard_deviation, lower_bound, upper_bound);\n  }\n\n  double Truncatednormaldist::get_sample(\n      double standard_deviation, double lower")], ["C34"]),
    ("oup-clamp", [("Auxillary/Stochastics/include/Stochastic.hpp", "#include <cmath>", "#include <algorithm>\n#include <cmath>"), ("Auxillary/Stochastics/include/Stochastic.hpp", "      if (sgn(mu) * current_value < (1.0 - cut_off_factor) * sgn(mu) * mu) {\n        current_value = (1.0 - cut_off_factor) * mu;\n      } else if (\n          sgn(mu) * current_value > (1.0 + cut_off_factor) * sgn(mu) * mu) {\n        current_value = (1.0 + cut_off_factor) * mu;\n      }", "      double const one_end = (1.0 - cut_off_factor) * mu;\n      double const other_end = (1.0 + cut_off_factor) * mu;\n      if (mu != 0) {\n        current_value = std::max(std::min(one_end, other_end), std::min(current_value, std::max(one_end, other_end)));\n      }")], []),
    ("oup-clamp2", [("Auxillary/Stochastics/include/Stochastic.hpp", "#include <cmath>", "#include <algorithm>\n#include <cmath>"), ("Auxillary/Stochastics/include/Stochastic.hpp", "      if (sgn(mu) * current_value < (1.0 - cut_off_factor) * sgn(mu) * mu) {\n        current_value = (1.0 - cut_off_factor) * mu;\n      } else if (\n          sgn(mu) * current_value > (1.0 + cut_off_factor) * sgn(mu) * mu) {\n        current_value = (1.0 + cut_off_factor) * mu;\n      }", "      auto bounds = std::minmax((1.0 - cut_off_factor) * mu, (1.0 + cut_off_factor) * mu);\n      if (mu > 0 or mu < 0) {\n        current_value = std::clamp(current_value, bounds.first, bounds.second);\n      }")], []),
    ("oup-while", [("Auxillary/Stochastics/Normaldistribution.cpp", "    double sample = normaldist.get_sample(mean, standard_deviation);\n    for (int counter = 0; counter < maximum_number_of_trials; ++counter) {\n      if (sample >= lower_bound and sample <= upper_bound) {\n        return sample;\n      }\n      sample = normaldist.get_sample(mean, standard_deviation);\n    }", "    int counter = 0;\n    while (counter != maximum_number_of_trials) {\n      double const sample = normaldist.get_sample(mean, standard_deviation);\n      bool const outside = sample < lower_bound or sample > upper_bound;\n      if (not outside) {\n        return sample;\n      }\n      ++counter;\n    }")], []),
    # ---- C35
    ("grid-accumulate", [("Auxillary/InterpolatingVector/InterpolatingVector.cpp", "    for (size_t index = 0; index != number_of_entries; ++index) {\n      // not accumulated, so that rounding errors do not add up:\n      interpolation_points.push_back(\n          startpoint + static_cast<double>(index) * delta);\n    }", "    interpolation_points.push_back(startpoint);\n    while (interpolation_points.size() < number_of_entries) {\n      interpolation_points.push_back(interpolation_points.back() + delta);\n    }")], ["C35"]),
    ("grid-final", [("Grazer/commands.cpp", "      // the final time is always constrained:", "      if (state_timepoints.size() % n != 0)")], ["C35"]),
    ("grid-ceil", [("Auxillary/InterpolatingVector/InterpolatingVector.cpp", "        = (std::ceil((last_point - first_point) / desired_delta)) + 1;", "        = (std::round((last_point - first_point) / desired_delta)) + 1;")], ["C35"]),
    ("grid-timedata", [("Auxillary/Timedata/Timedata.cpp", "std::ceil(get_timeinterval() / desired_delta_t)", "std::floor(get_timeinterval() / desired_delta_t)")], ["C35"]),
    ("grid-control", [("Grazer/helpers.cpp", "            timedata.get_starttime(), control_delta_t, timedata.get_endtime());", "            timedata.get_starttime(), control_delta_t, timedata.get_endtime() - timedata.get_delta_t());")], ["C35"]),
    ("grid-constraint-start", [("Grazer/commands.cpp", "        constraint_timepoints[index] = state_timepoints[1 + n * index];", "        constraint_timepoints[index] = state_timepoints[n * index];")], ["C35"]),
    ("grid-bounds", [("Grazer/commands.cpp", "      Aux::InterpolatingVector constraint_upper_bounds(\n          constraint_timepoints,", "      Aux::InterpolatingVector constraint_upper_bounds(\n          state_timepoints,")], ["C35"]),
    ("grid-generate", [("Auxillary/InterpolatingVector/InterpolatingVector.cpp", "    std::vector<double> interpolation_points;\n    for (size_t index = 0; index != number_of_entries; ++index) {\n      // not accumulated, so that rounding errors do not add up:\n      interpolation_points.push_back(\n          startpoint + static_cast<double>(index) * delta);\n    }", "    std::vector<double> interpolation_points(number_of_entries);\n    double steps = 0;\n    for (auto &point : interpolation_points) {\n      point = startpoint + steps * delta;\n      steps += 1.0;\n    }")], []),
    ("grid-helper", [("Grazer/commands.cpp", "int grazer::run(std::filesystem::path directory_path) {", "static Eigen::VectorXd constraint_times(Eigen::VectorXd const &times, Eigen::Index n) {\n  Eigen::Index const steps = times.size() - 1;\n  Eigen::VectorXd result((steps + n - 1) / n);\n  for (Eigen::Index index = 0; index != result.size(); ++index) {\n    result[index] = times[1 + n * index];\n  }\n  result[result.size() - 1] = times[steps];\n  return result;\n}\n\nint grazer::run(std::filesystem::path directory_path) {"), ("Grazer/commands.cpp", "      Eigen::Index number_of_constrainttimes = -1;\n      if ((state_timepoints.size() - 1) % n == 0) {\n        number_of_constrainttimes = (state_timepoints.size() - 1) / n;\n      } else {\n        number_of_constrainttimes = (state_timepoints.size() - 1) / n + 1;\n      }\n      Eigen::VectorXd constraint_timepoints(number_of_constrainttimes);\n      for (Eigen::Index index = 0; index < constraint_timepoints.size();\n           ++index) {\n\n        constraint_timepoints[index] = state_timepoints[1 + n * index];\n      }\n      // the final time is always constrained:\n      back(constraint_timepoints) = back(state_timepoints);", "      Eigen::VectorXd const constraint_timepoints = constraint_times(state_timepoints, n);")], []),
("bnd-unsorted", [("Model/Netfactory/Netfactory.cpp", "    Aux::sort_json_vectors_by_id(boundary, boundary_key);", "    Aux::check_for_duplicates(boundary, boundary_key);")], ["C10"]),
("bnd-nodup", [("Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp", "    check_for_duplicates(components, key);\n\n    for", "    for")], ["C10"]),
("bnd-advance", [("Model/Netfactory/Netfactory.cpp", "            ++secjson_it;\n          } else if", "            ++secjson_it;\n            ++top_it;\n          } else if")], ["C10"]),
("bnd-position", [("Model/Netfactory/Netfactory.cpp", "          if (id_compare_less(*secjson_it, *top_it)) {", "          if (secjson_it->size() == 0) {"), ("Model/Netfactory/Netfactory.cpp", "} else if (id_compare_less(*top_it, *secjson_it)) {", "} else if (second_json_vector_json.size() < topology_vector_json.size()) {")], ["C10"]),
("bnd-sort-length", [("Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp", "          return a[\"id\"].get<std::string>() < b[\"id\"].get<std::string>();", "          return a[\"id\"].get<std::string>().size() < b[\"id\"].get<std::string>().size();")], ["C10"]),
("bnd-dup-perclass", [("Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp", "= std::adjacent_find(component_vector.begin(), component_vector.end());", "= std::adjacent_find(component_vector.begin(), component_vector.end() - (component_vector.empty() ? 0 : 1));")], ["C10"]),
("bnd-refactor-find", [("Model/Netfactory/Netfactory.cpp", """            (*top_it)[name_of_inserted_json] = (*secjson_it);
            ++secjson_it;
            ++top_it;""", """            auto &target = *top_it;
            target[name_of_inserted_json] = *secjson_it;
            top_it++;
            secjson_it++;""")], []),
("bnd-refactor-loop", [("Model/Netfactory/Netfactory.cpp", """        while (secjson_it != second_json_vector_json.end()
               and top_it != topology_vector_json.end()) {
          auto id_compare_less
              = [](nlohmann::json const &a, nlohmann::json const &b) -> bool {
            return a["id"].get<std::string>() < b["id"].get<std::string>();
          };
""", """        auto id_of = [](nlohmann::json const &a) {
          return a.at("id").get<std::string>();
        };
        auto id_compare_less
            = [&id_of](nlohmann::json const &a, nlohmann::json const &b) {
                return id_of(a) < id_of(b);
              };
        for (;;) {
          if (secjson_it == second_json_vector_json.end()
              or top_it == topology_vector_json.end()) {
            break;
          }
""")], []),
    ("schema-key-dir", [("Auxillary/json_schema/schema_key_insertion.cpp", '"../schemas/" + type', '"./schemas/" + type')], ["C37"]),
    ("schema-key-topology-only", [("Auxillary/json_schema/schema_key_insertion.cpp", '"../schemas/" + type', '"../schemas/" + types.front()')], ["C37"]),
    ("schema-key-drops-empty", [("Auxillary/json_schema/schema_key_insertion.cpp", "          result[key] = std::move(value);", "          if (not value.empty()) {\n            result[key] = std::move(value);\n          }")], ["C37"]),
    ("schema-key-overwrites-missing", [("Auxillary/json_schema/schema_key_insertion.cpp", "if (std::filesystem::exists(schemas / (type + \"_schema.json\"))) {", "if (std::filesystem::exists(problem_dir / (type + \".json\"))) {")], ["C37"]),
    ("schema-key-refactor", [("Auxillary/json_schema/schema_key_insertion.cpp", "        for (auto &[key, value] : old_json.items()) {\n          result[key] = std::move(value);\n        }", "        for (auto it = old_json.begin(); it != old_json.end(); ++it) {\n          result[it.key()] = it.value();\n        }")], []),
    ("schema-gen-swap", [("Auxillary/json_schema/schema_generation.cpp", "factory.get_initial_schema(/*allow_required_defaults=*/false)", "factory.get_control_schema(/*allow_required_defaults=*/false)")], ["C37"]),
    ("schema-gen-external", [("Auxillary/json_schema/schema_generation.cpp", "/*allow_required_defaults=*/false, /*include_external=*/false)", "/*allow_required_defaults=*/false, /*include_external=*/true)")], ["C37"]),
    ("schema-gen-required-defaults", [("Auxillary/json_schema/schema_generation.cpp", "/*allow_required_defaults=*/false, /*include_external=*/false)", "/*allow_required_defaults=*/true, /*include_external=*/false)")], ["C37"]),
    ("schema-gen-old-defaults", [("Auxillary/json_schema/schema_generation.cpp", 'problem_data.at("problem_data").at("defaults")', 'problem_data.at("problem_data").at("subproblems").at("Network_problem").at("defaults")')], ["C37"]),
    ("schema-gen-refactor", [("Auxillary/json_schema/schema_generation.cpp", 'defaults = problem_data.at("problem_data").at("defaults");', 'auto const &inner = problem_data.at("problem_data");\n        if (inner.contains("defaults")) {\n          defaults = inner["defaults"];\n        }')], []),
    ("schema-required-keep-default", [("Auxillary/json_schema/make_schema.cpp", '.contains("default");\n                }),', '.contains("minimum");\n                }),')], ["C37"]),
    ("schema-required-no-recursion", [("Model/Componentfactory/include/Componentfactory.hpp", "      if (not allow_required_defaults) {\n        Aux::schema::remove_defaults_from_required(schema);\n      }\n      return schema;\n    };\n    std::optional<nlohmann::json> get_boundary_schema(", "      if (allow_required_defaults) {\n        Aux::schema::remove_defaults_from_required(schema);\n      }\n      return schema;\n    };\n    std::optional<nlohmann::json> get_boundary_schema(")], ["C37"]),
    ("schema-validate-before-defaults", [("Model/Componentfactory/include/Componentfactory.hpp", "      Aux::schema::apply_defaults(topology, topology_schema);\n      // order is important (defaults can be required!)\n      Aux::schema::validate_json(topology, topology_schema);\n      check_class", "      Aux::schema::validate_json(topology, topology_schema);\n      Aux::schema::apply_defaults(topology, topology_schema);\n      check_class")], ["C37"]),
    ("schema-other-retries-key", [("Model/Problemlayer/Timeevolver.cpp", 'retries(timeevolver_data["retries"])', 'retries(timeevolver_data.at("max_retries"))')], ["C37"]),
    ("schema-tolerance-int", [("Model/Problemlayer/Timeevolver.cpp", 'timeevolver_data["tolerance"],', 'timeevolver_data["newton_tolerance"],')], ["C37"]),
    ("schema-needs-optimize", [("Grazer/commands.cpp", 'if (all_json.contains("optimize")) {', 'all_json.at("optimize");\n    if (all_json.contains("optimize")) {')], ["C37"]),
    ("schema-defaults-elsewhere", [("Grazer/commands.cpp", 'problem_json.value("defaults", R"({})"_json)', 'all_json.value("defaults", R"({})"_json)')], ["C37"]),
    ("pipe-source-left-only", [("Model/Scheme/include/Implicitboxscheme.hpp", "0.5 * Delta_t * (bl.source(new_right) + bl.source(new_left))", "Delta_t * bl.source(new_right)")], ["C36"]),
    ("pipe-old-flux", [("Model/Scheme/include/Implicitboxscheme.hpp", "(bl.flux(new_left) - bl.flux(new_right))", "(bl.flux(last_left) - bl.flux(new_right))")], ["C36"]),
    ("pipe-trapezoid-last", [("Model/Scheme/include/Implicitboxscheme.hpp", "- 0.5 * (last_left + last_right)", "- (0.4 * last_left + 0.6 * last_right)")], ["C36"]),
    ("pipe-momentum-abs", [("Model/Balancelaw/Isothermaleulerequation.cpp", "(rho_0 / Area) * q * q / rho;", "(rho_0 / Area) * q * std::abs(q) / rho;")], ["C36"]),
    ("pipe-flux-area", [("Model/Balancelaw/Isothermaleulerequation.cpp", "flux[0] = rho_0 / Area * q;", "flux[0] = rho_0 * Area * q;")], ["C36"]),
    ("pipe-laminar-16", [("Model/Balancelaw/Isothermaleulerequation.cpp", "source[1] = -rho_0 / (2 * Area * diameter) * 64", "source[1] = -rho_0 / (2 * Area * diameter) * 16")], ["C36"]),
    ("pipe-friction-direction", [("Model/Balancelaw/Isothermaleulerequation.cpp", "* lambda_non_laminar(Re, diameter, roughness) * std::abs(q)\n                  * q / rho;", "* lambda_non_laminar(Re, diameter, roughness) * q\n                  * q / rho;")], ["C36"]),
    ("pipe-spline-slope", [("Model/Balancelaw/Isothermaleulerequation.cpp", "-64. / (laminar_border * laminar_border)", "-64. / laminar_border")], ["C36"]),
    ("pipe-spline-row", [("Model/Balancelaw/Isothermaleulerequation.cpp", "3 * b * b, 2 * b, 1, 0;", "3 * b * b, b, 1, 0;")], ["C36"]),
    ("pipe-swamee-const", [("Model/Balancelaw/Isothermaleulerequation.cpp", "double aux = log10(roughness / (3.7 * diameter) + 5.74 / (pow(Re, 0.9)));", "double aux = log10(roughness / (3.7 * diameter) + 5.47 / (pow(Re, 0.9)));"), ("Model/Balancelaw/Isothermaleulerequation.cpp", "5.74 / x;", "5.47 / x;"), ("Model/Balancelaw/Isothermaleulerequation.cpp", "(-5.74 / (x * x))", "(-5.47 / (x * x))")], ["C36"]),
    ("pipe-reynolds-radius", [("Model/Balancelaw/Isothermaleulerequation.cpp", "Re = diameter / (Area * eta) * rho_0 * std::abs(q);", "Re = 0.5 * diameter / (Area * eta) * rho_0 * std::abs(q);")], ["C36"]),
    ("pipe-rho-no-z", [("Model/Balancelaw/Isothermaleulerequation.cpp", "rho = p / (c_vac_squared * (1 + alpha * p));", "rho = p / c_vac_squared;")], ["C36"]),
    ("pipe-p-sign", [("Model/Balancelaw/Isothermaleulerequation.cpp", "p = c_vac_squared * rho / (1 - alpha * c_vac_squared * rho);", "p = c_vac_squared * rho / (1 + alpha * c_vac_squared * rho);")], ["C36"]),
    ("pipe-grid-floor", [("Model/Networkproblem/Gas/Pipe.cpp", "static_cast<int>(std::ceil(", "static_cast<int>(std::floor(")], ["C36"]),
    ("pipe-grid-dx", [("Model/Networkproblem/Gas/Pipe.cpp", "/ (number_of_points - 1)),", "/ number_of_points),")], ["C36"]),
    ("pipe-grid-desired-dx", [("Model/Networkproblem/Gas/Pipe.cpp", "Delta_x(\n          unit::length.parse_to_si(topology[\"length\"])\n          / (number_of_points - 1)),", "Delta_x(topology[\"desired_delta_x\"].get<double>()),")], ["C36"]),
    ("pipe-roughness-swap", [("Model/Balancelaw/Isothermaleulerequation.cpp", "roughness(Aux::unit::length.parse_to_si(json[\"roughness\"]))", "roughness(json[\"roughness\"][\"value\"].get<double>())")], ["C36"]),
    ("pipe-last-shift", [("Model/Networkproblem/Gas/Pipe.cpp", "      auto last_right = last_state.segment<2>(i + 1);\n      auto new_left = new_state.segment<2>(i - 1);\n      auto new_right = new_state.segment<2>(i + 1);\n\n      scheme->evaluate_point(", "      auto last_right = last_state.segment<2>(i - 1);\n      auto new_left = new_state.segment<2>(i - 1);\n      auto new_right = new_state.segment<2>(i + 1);\n\n      scheme->evaluate_point(")], ["C36"]),
    ("pipe-valve-sign", [("Model/Networkproblem/Gas/Controlvalve.cpp", "- get_boundary_state(start, new_state) + pressure_control;", "- get_boundary_state(start, new_state) - pressure_control;")], ["C36"]),
    ("pipe-refactor-area", [("Model/Balancelaw/Isothermaleulerequation.cpp", "    auto Area = Aux::circle_area(0.5 * diameter);\n    flux[0] = rho_0 / Area * q;\n    flux[1] = Area / rho_0 * p(rho) + (rho_0 / Area) * q * q / rho;", "    double const radius = diameter / 2;\n    double const velocity_factor = rho_0 / Aux::circle_area(radius);\n    flux[0] = q * velocity_factor;\n    flux[1] = p(rho) / velocity_factor + flux[0] * (q / rho);")], []),
    ("pipe-refactor-scheme", [("Model/Scheme/include/Implicitboxscheme.hpp", "      result = 0.5 * (new_left + new_right) - 0.5 * (last_left + last_right)\n               - Delta_t / Delta_x * (bl.flux(new_left) - bl.flux(new_right))\n               - 0.5 * Delta_t * (bl.source(new_right) + bl.source(new_left));", "      Eigen::Vector<double, Dimension> mean_change\n          = 0.5 * ((new_left - last_left) + (new_right - last_right));\n      Eigen::Vector<double, Dimension> flux_difference\n          = bl.flux(new_right) - bl.flux(new_left);\n      Eigen::Vector<double, Dimension> mean_source\n          = 0.5 * bl.source(new_right) + 0.5 * bl.source(new_left);\n      result = mean_change\n               + Delta_t * (flux_difference / Delta_x - mean_source);")], []),
    ("pipe-refactor-source", [("Model/Balancelaw/Isothermaleulerequation.cpp", "    if (Re < laminar_border) { // laminar, that is linear friction:\n      source[1] = -rho_0 / (2 * Area * diameter) * 64\n                  / coeff_of_Reynolds(diameter) * q / rho;\n    } else {", "    double const common = -rho_0 / (2 * Area * diameter) / rho;\n    if (Re < laminar_border) { // laminar, that is linear friction:\n      source[1] = common * (64 / coeff_of_Reynolds(diameter)) * q;\n    } else {")], []),
    ("pipe-refactor-loop", [("Model/Networkproblem/Gas/Pipe.cpp", "    for (auto i = get_equation_start_index(); i != get_equation_after_index();\n         i += 2) {\n\n      auto rootvalue_segment = rootvalues.segment<2>(i);", "    for (int cell = 0; cell < number_of_points - 1; ++cell) {\n      auto i = get_equation_start_index() + 2 * cell;\n      auto rootvalue_segment = rootvalues.segment<2>(i);")], []),
    ("adv-gasnode-forgot-advance", [(GN + "Gasnode.cpp", "      old_equation_index = current_equation_index;\n    }\n    // last edge:", "    }\n    // last edge:")], ["C01"]),
    ("adv-power-dV-half", [(PN + "Powernode.cpp", "jacobianhandler.add_to_coefficient(equationindex, V_index, 2 * G_i * V_i);", "jacobianhandler.add_to_coefficient(equationindex, V_index, G_i * V_i + G_i);")], ["C01"]),
    ("adv-power-dphi-other", [(PN + "Powernode.cpp", "V_i * V_k * (-G_ik * cos(phi_ik) - B_ik * sin(phi_ik)));", "V_i * V_k * (-G_ik * cos(phi_ik) + B_ik * sin(phi_ik)));")], ["C01"]),
    ("adv-gp-smooth-derivative", [("Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp", "- 1.5 * (power2gas_q_coefficient", "- 0.75 * (power2gas_q_coefficient")], ["C01"]),
    ("adv-gp-smooth-edge", [("Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp", "    } else if (q < -kappa) {\n      return power2gas_q_coefficient;", "    } else if (q < kappa) {\n      return power2gas_q_coefficient;")], ["C01"]),
    ("adv-valve-dcontrol", [("Model/Networkproblem/Gas/Controlvalve.cpp", "start_equation_index, pressure_control_index, 1.0);", "start_equation_index, pressure_control_index, -1.0);")], ["C01"]),
    ("adv-box-last-derivative", [("Model/Scheme/include/Implicitboxscheme.hpp", "      jac = -0.5 * id;\n      return jac;\n    }\n\n    Eigen::Matrix<double, Dimension, Dimension> devaluate_point_d_last_right", "      jac = 0.5 * id;\n      return jac;\n    }\n\n    Eigen::Matrix<double, Dimension, Dimension> devaluate_point_d_last_right")], ["C01"]),
    ("adv-pipe-boundary-chain", [("Model/Networkproblem/Gas/Pipe.cpp", "dpqvolbar_dpqvol * dp_qvol_dstate;", "dp_qvol_dstate;")], ["C01"]),
    ("adv-sparse-phi", [(PN + "Powernode.cpp", "      jacobianhandler.add_to_coefficient(\n          equationindex, V_index_k,\n          V_i * (G_ik * sin(phi_ik) - B_ik * cos(phi_ik)));", "      if (phi_i != phi_k or B_ik != 0.0) {\n      jacobianhandler.add_to_coefficient(\n          equationindex, V_index_k,\n          V_i * (G_ik * sin(phi_ik) - B_ik * cos(phi_ik)));\n      }")], ["C03"]),
    ("adv-sparse-pipe-backflow", [("Model/Networkproblem/Gas/Pipe.cpp", "      jacobianhandler.add_to_coefficient(i, i, current_derivative_left(0, 1));\n      jacobianhandler.add_to_coefficient(\n          i + 1, i - 1, current_derivative_left(1, 0));\n      jacobianhandler.add_to_coefficient(\n          i + 1, i, current_derivative_left(1, 1));\n\n      Eigen::Matrix2d current_derivative_right\n          = scheme->devaluate_point_d_new_right(", "      jacobianhandler.add_to_coefficient(i, i, current_derivative_left(0, 1));\n      if (current_derivative_left(1, 0) != 0.0)\n      jacobianhandler.add_to_coefficient(\n          i + 1, i - 1, current_derivative_left(1, 0));\n      jacobianhandler.add_to_coefficient(\n          i + 1, i, current_derivative_left(1, 1));\n\n      Eigen::Matrix2d current_derivative_right\n          = scheme->devaluate_point_d_new_right(")], ["C03"]),
    ("adv-sparse-gp-zero", [("Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp", "    jacobianhandler.add_to_coefficient(\n        q_index, q_index, -dgenerated_power_dq(q));", "    if (q != 0.0) {\n    jacobianhandler.add_to_coefficient(\n        q_index, q_index, -dgenerated_power_dq(q));\n    }")], ["C03"]),
    ("adv-sparse-handler", [("Auxillary/Matrixhandler/Matrixhandler.cpp", "    Eigen::Triplet<double, Eigen::Index> newtriplet\n        = {actual_row, actual_col, value};\n    tripletlist.push_back(newtriplet);", "    if (value == 0.0) {\n      return;\n    }\n    Eigen::Triplet<double, Eigen::Index> newtriplet\n        = {actual_row, actual_col, value};\n    tripletlist.push_back(newtriplet);")], ["C03", "C28"]),
    ("adv-index-end-short", [("Model/Networkproblem/Gas/Gasedge.cpp", "    return (get_state_afterindex() - 1);", "    return (get_state_startindex() + 3);")], ["C08"]),
    ("adv-index-boundary-last", [("Model/Networkproblem/Gas/Gasedge.cpp", "    return get_state_afterindex() - 2;", "    return get_state_startindex() + 2;")], ["C26"]),
    ("adv-node-last-edge-p0", [(GN + "Gasnode.cpp", "rootvalues[old_equation_index] = current_p - old_p;", "rootvalues[old_equation_index] = old_p - p0 + current_p - old_p;")], ["C01"]),
    ("adv-node-assign", [(GN + "Gasnode.cpp", "      rootvalues[last_equation_index]\n          += static_cast<int>(direction) * current_qvol;", "      rootvalues[last_equation_index]\n          = rootvalues[last_equation_index] + direction * current_qvol * (edge != edge0);")], []),
    ("adv-node-edge-twice", [(GN + "Gasnode.cpp", "    for (auto &endedge : get_ending_edges()) {\n      auto endgasedge = dynamic_cast<Gasedge *>(endedge);\n      if (!endgasedge) {", "    for (auto &endedge : get_ending_edges()) {\n      auto endgasedge = dynamic_cast<Gasedge *>(endedge);\n      if (!endgasedge or directed_attached_gas_edges.size() > 5) {")], ["C26"]),
    ("adv-pv-swapped", [(PN + "PVnode.cpp", "rootvalues[V_index] = P(new_state) - boundaryvalue(new_time)[0];\n\n    rootvalues[phi_index] = new_state[V_index] - boundaryvalue(new_time)[1];", "rootvalues[V_index] = P(new_state) - boundaryvalue(new_time)[1];\n\n    rootvalues[phi_index] = new_state[V_index] - boundaryvalue(new_time)[0];")], ["C26"]),
    ("adv-plant-last-time", [("Model/Networkproblem/Gaspowerconnection/ExternalPowerplant.cpp", "Eigen::Ref<Eigen::VectorXd> rootvalues, double, double new_time,\n      Eigen::Ref<Eigen::VectorXd const> const &,", "Eigen::Ref<Eigen::VectorXd> rootvalues, double new_time, double,\n      Eigen::Ref<Eigen::VectorXd const> const &,")], ["C27"]),
    ("adv-stoch-step-time", [(PN + "StochasticPQnode.cpp", "last_Q, stochasticdata->theta_Q, boundaryvalue(new_time)[1],", "last_Q, stochasticdata->theta_Q, boundaryvalue(last_time)[1],")], ["C27", "C34"]),
    ("adv-stoch-theta", [(PN + "StochasticPQnode.cpp", "last_Q, stochasticdata->theta_Q, boundaryvalue(new_time)[1],", "last_Q, stochasticdata->theta_P, boundaryvalue(new_time)[1],")], ["C34"]),
    ("adv-handler-set", [("Auxillary/Matrixhandler/Matrixhandler.cpp", "matrix.coeffRef(actual_row, actual_col) += value;", "if (value != 0.0) {\n      matrix.coeffRef(actual_row, actual_col) = value + matrix.coeff(actual_row, actual_row);\n    }")], ["C28"]),
    ("adv-handler-transposed-range", [("Auxillary/Matrixhandler/Matrixhandler.cpp", "    matrix.setFromTriplets(tripletlist.begin(), tripletlist.end());\n", "    matrix.setFromTriplets(\n        tripletlist.begin(), tripletlist.end(),\n        [](double const &, double const &b) { return b; });\n")], ["C28"]),
]
