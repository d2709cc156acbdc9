I = "include/maec/"
S = "src/"
TECH = ("TLA+ specification of chains (TLC: exhaustive over small topologies and operation histories) + replay of model-generated "
        "and random chains into the real modules + trace validation of every recorded observation by TLC")
NOTE = ("Exhaustive for the model's small topologies; for the code: thousands of chains and operation sequences per run, every hook call, "
        "state, record and sample compared by TLC with the specification. Bounded by generated sizes (about 20 modules, 5 samples, "
        "3 channels); AddressSanitizer turns memory errors into violations.")
CH = [("back", "module behind", "AudioModule::mod_backward / ModuleMixDown::in"), ("state", "lifecycle state", "BaseModule::state"),
      ("chain", "record shared by a chain", "BaseModule::chain_info")]


def define(prop):
    prop("C05", "Lifecycle requests reach every module behind, in upstream-first order",
         "A start, stop or finish request made at a module reaches every module behind it exactly once per path, each module's own hook running after all "
         "hooks behind it; at a module with several inputs the inputs are visited in the order they were linked. Modules held as parameters are started and stopped "
         "with their host, after its own hook. After a start every module reached reports started, after a stop stopped, after a finish request finishing or finished, "
         "also when a user module overrides the hooks without calling the base ones.",
         ["inputs", "histories"], "every acyclic chain of sources, modules, mixers, parameters and sinks, every order of lifecycle requests",
         "The tests use two or three fixed chains and never mix repeated starts, stops and finishes, mixers, parameters and overriding hooks.",
         [I + "base_module.hpp", I + "audio_module.hpp", S + "base_module.cpp", S + "source_module.cpp", S + "module_mixer.cpp", S + "module_param.cpp"],
         [("meta_start/meta_stop/meta_finish forwarded backwards", "AudioModule::meta_*"), ("fan out to inputs", "ModuleMixDown::meta_*"),
          ("parameters", "ParamMixIn / module_param.cpp")], CH, ["hooks start/stop/finish", "get_state()"], TECH, NOTE)
    prop("C06", "Every module that finishes is counted once in its chain",
         "A finish request makes each module behind the sink declare itself finished, immediately or later when it chooses to defer; each declaration adds exactly one "
         "to the finished counter of the chain the module belongs to, and to no other chain; a module that is not in any chain yet becomes finished without being counted. Parameters, which are chains of their own, are not finished with their host. "
         "For a chain without shared modules the counter therefore reaches the chain's module count exactly when the last module is done.",
         ["inputs", "histories"], "every chain, every subset of modules that defer finishing, every order of late declarations and repeated requests",
         "Tests check one module's state after one call; the counter across several modules and chains is never observed.",
         [I + "base_module.hpp", S + "base_module.cpp", S + "module_mixer.cpp", I + "sink_module.hpp"],
         [("done() increments the chain's counter", "BaseModule::done"), ("finish hook", "BaseModule::finish")], CH,
         ["get_chain_info()->module_finish", "get_state()"], TECH, NOTE)
    prop("C07", "Info sync makes every module agree with its chain",
         "After an info sync of a sink every module behind it, through any mixers, reports the sample rate, buffer size and channel count set at that sink and "
         "refers to that sink's chain record; parameters get the same values in a record of their own. The record's module count is the number of modules visited by that "
         "sync, however often and after whatever rewiring syncs were made before. Each module is synced before what is behind it. Syncing never fails, also while "
         "other outputs of a shared module are not synced yet.",
         ["inputs", "histories"], "every topology, every chain configuration, every sequence of syncs, rewirings and reconfigurations",
         "Tests sync one short chain once; stale counters and values after rewiring or reconfiguring are never looked at.",
         [I + "base_module.hpp", S + "base_module.cpp", S + "module_mixer.cpp", S + "sink_module.cpp", S + "module_param.cpp"],
         [("info_sync copies from the module in front", "BaseModule::info_sync"), ("sink publishes the record", "BaseSinkModule / sink_module.cpp"),
          ("parameter configured from host", "BaseModuleParam::param_conf")], CH, ["get_info()", "get_chain_info()"], TECH, NOTE)
    prop("C08", "Linking keeps both directions consistent, dynamic and static chains alike",
         "After linking b behind a, a's backward module is b and b's forward module is a; relinking replaces the previous module, whereas a mixer appends an input (or an output, for "
         "modules that fan out) and keeps those it has. The call returns the linked module, so links chain. A statically linked chain, alone or as part of a dynamic one, behaves "
         "in lifecycle, info sync, finish accounting and data flow exactly like the dynamic chain of the same modules, and refuses dynamic links that would replace its static ones. A copied, moved or assigned static piece is a chain "
         "of its own: what is done to one does not reach the other.",
         ["inputs", "histories"], "every sequence of links over every mix of module kinds, static and dynamic",
         "Tests link at most four modules once and compare two pointers.",
         [I + "base_module.hpp", I + "audio_module.hpp", I + "sink_module.hpp", I + "module_mixer.hpp", S + "module_mixer.cpp"],
         [("link/bind", "AudioModule::link, BaseModule::set_forward"), ("static composition", "Module templates, SinkModule<...>, Chain")], CH,
         ["get_backward()", "get_forward()", "in()/out()", "hooks"], TECH, NOTE)
    prop("C12", "Every output of a splitting module gets its own identical copy",
         "When one module feeds several modules in front of it, one production upstream serves them all: each module in front that fetches gets a buffer equal "
         "in samples, channel count and rate to what was produced, whatever the size of that buffer compared with the configured one; changing one copy changes neither another copy nor what later "
         "fetches get. The splitting module follows the chain it is used from: state, info and data pass through it to and from upstream.",
         ["inputs", "histories"], "every buffer size and channel count, any number of outputs, mixers in front and behind, shared by one or more chains",
         "The tests split a single-channel buffer of the configured size into fixed outputs.",
         [I + "module_mixer.hpp", S + "module_mixer.cpp"], [("copy per get_buffer", "ModuleMixUp::get_buffer"), ("forward handling", "ModuleMixUp::set_forward/process")],
         CH, ["get_buffer() of each output"], TECH, NOTE)
    prop("C14", "A process request composes the chain exactly once per module and buffer",
         "Processing a sink makes each module behind it process exactly once per path and buffer, inputs before the module, mixer inputs in link order; the buffer that arrives is exactly "
         "the composition of the modules' transformations applied to what the sources produced, with channel count and sample rate carried along. A period sink does this exactly as many times as its "
         "period says (not at all for zero) and keeps the last buffer.",
         ["inputs", "histories"], "every chain of sources, modules, mixers, parameters and sinks; any interleaving with reconfigurations and lifecycle requests",
         "Tests push one constant buffer through two modules.",
         [I + "audio_module.hpp", I + "sink_module.hpp", S + "base_module.cpp", S + "sink_module.cpp", S + "module_mixer.cpp", I + "source_module.hpp"],
         [("meta_process recursion", "AudioModule::meta_process"), ("periods", "PeriodSink::meta_process"), ("buffer hand-over", "BaseModule::set_buffer/get_buffer")],
         CH, ["process() calls", "get_buffer() of the sink"], TECH, NOTE)
    prop("C20", "Parameters follow their host and deliver values from their own chain",
         "A module used as a parameter is the sink of its own chain: a constant parameter yields that constant for every sample, a module parameter yields the buffer its chain produces, once "
         "for each time the host asks. Parameters are started, stopped and configured with their host and always have the host's sample rate, buffer size and channel count after a sync, also after they were rebound "
         "to another module or constant, also when parameters nest.",
         ["inputs", "histories"], "every nesting of parameters and chains, every sequence of lifecycle requests, reconfigurations and rebindings",
         "Tests evaluate one constant and one module parameter once each.",
         [I + "module_param.hpp", S + "module_param.cpp"], [("param_conf", "BaseModuleParam::param_conf"), ("lifecycle forwarding", "ParamMixIn"), ("get()", "BaseModuleParam")],
         CH, ["hooks of modules behind the parameter", "buffers used by the host"], TECH, NOTE)
