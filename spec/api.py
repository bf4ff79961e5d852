"""What the public API promises about effects (by public name, from the documentation)."""

SFG = "b_asic.sfg.SFG"
SCHEDULE = "b_asic.schedule.Schedule"
COLLECTION = "b_asic.resources.ProcessCollection"

# New graph out, old graph untouched.
TRANSFORMS = {
    SFG: ["__call__", "copy", "flatten", "extract", "replace", "insert_operation",
          "insert_operation_after", "insert_operation_before", "remove_operation",
          "simplify_delay_element_placement", "unfold", "rewrite", "join", "to_ss", "to_tf", "to_zpk"],
}
# parameters that are connected to the new graph by design
CONNECTED = {(SFG, "__call__"): {"src"}}

# Read-only: everything else in the class that is public.
QUERIES = {
    SFG: ["expression", "__str__", "type_name", "input_operations", "output_operations", "split", "to_sfg",
          "inputs_required_for_output", "id_number_offset", "components", "operations",
          "find_by_type_name", "find_by_type", "find_by_id", "find_by_name",
          "find_result_keys_by_name", "get_precedence_list", "show_precedence_graph",
          "precedence_graph", "print_precedence_graph", "get_operations_topological_order",
          "sfg_digraph", "show", "critical_path_time", "resource_lower_bound",
          "iteration_period_bound", "loops", "to_ss", "to_tf", "to_zpk", "find_all_paths",
          "operation_counter", "is_linear", "is_constant", "get_used_type_names",
          "get_used_operation_types", "get_used_graph_ids", "get_impulse_responses",
          "get_l1_norms", "get_l2_norms", "get_impulse_responses_from_nodes"],
    SCHEDULE: ["__str__", "start_time_of_operation", "get_max_end_time", "get_max_non_io_end_time",
               "forward_slack", "backward_slack", "slacks", "print_slacks", "sfg", "start_times",
               "laps", "schedule_time", "cyclic", "get_possible_time_resolution_decrements",
               "get_y_location", "get_memory_variables", "get_operations", "get_used_type_names",
               "get_io_latency", "plot", "show"],
    COLLECTION: ["collection", "schedule_time", "__len__", "find_by_time", "__contains__", "plot",
                 "show", "exclusion_graph_from_ports", "exclusion_graph_from_execution_time",
                 "split_on_type_name", "split_on_execution_time", "split_on_ports",
                 "split_ports_sequentially", "__repr__", "__iter__",
                 "generate_memory_based_storage_vhdl", "split_on_length", "split_into_chains",
                 "generate_register_based_storage_vhdl", "get_by_type_name", "get_by_type",
                 "processing_element_bound", "read_ports_bound", "read_port_accesses",
                 "write_ports_bound", "write_port_accesses", "total_ports_bound",
                 "total_port_accesses", "show_port_accesses", "plot_port_accesses", "from_name",
                 "total_execution_times", "show_total_execution_times",
                 "plot_total_execution_times"],
    "b_asic.architecture.Architecture": [
        "validate_ports", "write_component_declaration", "write_signal_declarations",
        "write_component_instantiation", "get_interconnects_for_memory", "get_interconnects_for_pe",
        "get_multiplexer_input_count", "resource_from_name", "show", "memories",
        "processing_elements", "direct_interconnects", "schedule_time"],
    "b_asic.architecture.Resource": [
        "__repr__", "__iter__", "input_count", "output_count", "schedule_time", "plot_content",
        "show_content", "is_assigned", "content", "collection", "assignment", "operation_type",
        "write_component_declaration", "write_component_instantiation", "entity_name",
        "write_signal_declarations"],
    "b_asic.architecture.ProcessingElement": ["processes", "control_table"],
    "b_asic.architecture.Memory": ["__iter__"],
    "b_asic.process.Process": ["__lt__", "start_time", "execution_time", "name", "__str__", "__repr__",
                               "read_times"],
    "b_asic.process.MemoryProcess": ["read_times", "life_times", "reads", "read_ports", "write_port",
                                     "split_on_length"],
    "b_asic.state_space.StateSpace": ["equations", "__repr__", "to_zpk", "to_tf"],
    "b_asic.transfer_function.TransferFunction": ["__repr__", "zpk", "__getitem__"],
    "b_asic.simulation.Simulation": ["iteration", "results", "sfg", "show"],
    "b_asic.signal.Signal": ["type_name", "neighbors", "source", "destination", "source_operation",
                             "destination_operation", "dangling", "bits", "is_constant"],
    "b_asic.port.InputPort": ["signal_count", "signals", "connected_source", "operation", "index",
                              "latency_offset", "name"],
    "b_asic.port.OutputPort": ["signal_count", "signals", "source", "operation", "index",
                               "latency_offset", "name"],
    "b_asic.operation.Operation": [
        "__repr__", "expression", "__str__", "input_count", "output_count", "input", "output",
        "inputs", "outputs", "input_signals", "output_signals", "key",
        "inputs_required_for_output", "neighbors", "preceding_operations",
        "subsequent_operations", "source", "destination", "latency", "latency_offsets",
        "input_latency_offsets", "output_latency_offsets", "execution_time",
        "get_plot_coordinates", "get_input_coordinates", "get_output_coordinates", "is_linear",
        "is_constant", "is_swappable", "name", "graph_id", "params", "param", "traverse", "copy"],
}

# Functions that read what they are given: function -> parameters that stay as they are
READERS = {
    "b_asic.save_load_structure.sfg_to_python": ["sfg"],
    "b_asic.save_load_structure.schedule_to_python": ["schedule"],
    "b_asic.resource_assigner.assign_processing_elements_and_memories": ["schedule"],
    "b_asic.simulation.Simulation.__init__": ["sfg", "input_providers"],
    "b_asic.architecture.Architecture.__init__": ["direct_interconnects"],
    "b_asic.code_printer.vhdl.vhdl_printer.VhdlPrinter.print": ["arch"],
    "b_asic.tb_printer.vhdl.vhdl_tb_printer.VhdlTbPrinter.print": ["arch"],
    "b_asic.tb_printer.cocotb.cocotb_printer.CocotbPrinter.print": ["arch", "schedule"],
}
