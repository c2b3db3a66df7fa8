"""Single source of properties.jsonl and of the MANIFEST entries: (id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, technique, note | ("na", reason))."""
L = "content/lib/pyswitch/"
K = L + "clients/kemper/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, thorough=thorough))


AI = "path-sensitive abstract interpretation of the source"
TS = "typestate analysis: abstract interpretation closed over all reachable object states"
TRUST = "Trusted: the analyser's model of Python semantics and of the external MIDI message classes; anything the analyser cannot resolve makes the check error out instead of passing."

prop("C01", "Unknown parameter values never crash the controller",
     "As long as the device has not answered (every tracked parameter value is unknown), no push, release, periodic update, reset, encoder movement, parameter notification, termination or display refresh of any shipped action or display callback raises an error. The same holds when a value becomes unknown again after it was known.",
     ["histories", "configurations"], "all action factories and display callbacks x every sequence of events with any subset of parameters unknown",
     "tests answer the parameters they need; the unknown-value branches of ~50 factories are sampled only where somebody thought of them",
     [L + "clients", L + "controller/actions", L + "controller/callbacks"],
     [("None guards in the callbacks", K + "actions"), ("request_terminated clears values", L + "controller/callbacks/__init__.py")], AI + ": implicit-exception reachability with nullable parameter values", TRUST)

prop("C02", "Foot switch and pedal dispatch calls every action exactly as configured",
     "Every physical press and release of a switch triggers the configured enabled actions exactly once, in configuration order, with nested action lists flattened; with hold actions a press runs either the short or the hold actions depending only on whether the hold time elapsed, and hold actions repeat while held only if repeat is enabled. An override action sees each edge first and alone decides whether the normal actions are processed. Continuous inputs forward every polled value to every enabled action exactly once, in order.",
     ["histories", "schedules"], "all press/hold/release/timer/enable/override sequences",
     "tests script a few press/release orders with a fake clock; the state machine has more reachable states than they visit",
     [L + "controller/inputs.py"], [("process of switch and continuous controllers", L + "controller/inputs.py")], TS, TRUST)

prop("C03", "Push button modes follow their documented state machine",
     "For each push button mode (enable, disable, latch, momentary, inverse momentary, hold-momentary, one-shot, no state change) every sequence of pushes, releases, resets and feedback from the device leads to the documented on/off state, and the device is told about exactly the user-made changes, in order. Hold-momentary, the default mode, decides on release by the time since the push; no other mode depends on time.",
     ["histories"], "all modes x all event sequences",
     "tests run one short scenario per mode", [L + "controller/actions/__init__.py"], [("push/release/state/feedback_state", L + "controller/actions/__init__.py")], TS, TRUST)

prop("C04", "On/off parameters: evaluation, sent values and value restore",
     "For every received value and reference value, an on/off action is shown enabled exactly if the configured comparison (equal, greater, greater-or-equal, less, less-or-equal) holds, and never if the value is unknown. Switching on by the user sends the enable value(s) and switching off sends the disable value(s) on the mapping configured for that direction and then asks for the new value; an automatic disable value is the last value the device reported while the parameter was off, and nothing is sent before one is known. Colour, text, LED brightness and label dimming always correspond to the current state, also after a reset.",
     ["inputs", "histories", "configurations"], "all integer values and references x comparison modes x scalar/list/auto disable values x event orders",
     "tests pick a handful of values around one reference per mode", [L + "controller/callbacks/__init__.py"],
     [("evaluate_value, state_changed_by_user, update_displays", L + "controller/callbacks/__init__.py")], AI + " over symbolic values", TRUST)

prop("C05", "The main loop stays responsive",
     "Every tick returns true, and all inputs are polled before each MIDI message that is taken from the queue, also between the updates of the periodic components. Between two polls of the inputs at most one message is consumed and at most one periodic component is updated, and a MIDI flood cannot hold a tick longer than the configured number of consecutive messages; periodic components are updated once per elapsed interval and never otherwise. At startup stale MIDI messages are drained until the queue is empty, if configured.",
     ["schedules", "inputs", "configurations"], "any message stream, number of inputs and updateables, and period timing",
     "tests run a fixed number of ticks with short scripted queues", [L + "controller/controller.py", L + "process.py"],
     [("tick and the receive loop", L + "controller/controller.py")], AI + " of the loop structure", TRUST)

prop("C06", "Parameter requests: one query, one answer to everyone, no leaks",
     "Requesting a parameter while a query for it is pending sends nothing new but adds the listener; every listener registered at the time the answer arrives is notified exactly once with the value already stored, and the request is then dropped. A request not answered within the configured lifetime is dropped too after notifying every listener exactly once that it was terminated, and later requests of the same parameter are sent again. Parameters without request or response message are never queried, and messages matching no pending request change nothing.",
     ["histories", "schedules", "inputs"], "all interleavings of requests by several listeners, answers, foreign messages and timeouts",
     "tests use one or two listeners and scripted timing", [L + "controller/client.py"],
     [("request table of the client", L + "controller/client.py")], TS + " with two listeners and volatile timers", TRUST)

prop("C07", "Bidirectional parameters stay subscribed and reflect user changes at once",
     "With a bidirectional protocol, parameters covered by it are never polled but keep their registration forever, so each incoming value notifies all registered listeners; parameters outside of it are handled as normal requests. Setting a covered parameter sends the message and notifies all its listeners immediately with the value set. When the connection is lost all listeners of covered parameters, and only those, are told so without losing their registration, and messages answered by a parameter are not passed to the protocol.",
     ["histories"], "all sequences of register, set, receive and connection loss",
     "tests check single steps with mock protocols", [L + "controller/client.py"], [("bidirectional client", L + "controller/client.py")], TS, TRUST)

prop("C08", "The Kemper bidirectional session is established, kept alive and re-established",
     "While offline an initialisation beacon is sent once per init interval; after a sensing message has arrived the session is running, keep-alive beacons are sent after half of the lease time, and no init flag is set in them. When no sensing message arrives within the sensing timeout the session becomes offline and is re-initialised, with all listeners told about a lost connection; only genuine sensing messages from the device count. Beacons carry the selected parameter set, the sysex flag, the tuner flag as configured and the lease time in units of two seconds, and the state colour shows whether the session is running.",
     ["histories", "schedules", "inputs"], "all sequences of timer expiries and messages",
     "tests drive a few transitions with mocked periods", [K + "__init__.py"], [("bidirectional protocol class", K + "__init__.py")], TS, TRUST)

prop("C09", "MIDI routing neither loses, duplicates nor misdirects messages",
     "Every message the application sends goes exactly once to the target of every routing whose source is the application, and to nothing else. Each message read from a source device reaches exactly once each target of the external routings from that source (unless it is an unknown event), whatever other sources deliver in the same cycle and also if the same source is routed to the application; no source is read twice in one cycle. The application receives each message of its own sources exactly once and in order, and is told that nothing is left only when that is true.",
     ["configurations", "inputs", "schedules"], "all routing tables up to the stated size x message availability patterns",
     "tests use two or three hand-made routing tables", [L + "controller/midi.py"], [("routing controller", L + "controller/midi.py")], AI + ", routing tables enumerated", TRUST)

prop("C10", "MIDI values are coded and decoded consistently",
     "Setting an integer 0..16383 on an NRPN parameter yields a message whose two value bytes are each 7-bit and decode to the same integer with the decoder used for responses; control change and program change parameters carry the plain value; list parameters set each message with its own value. A message is taken as an answer only if its kind, manufacturer, function, instance and address (or controller number) match the response template, and two-part parameters combine the two parts as 128*first+second, complete only after the second. Everything but the value bytes of a message stays unchanged by setting a value.",
     ["inputs"], "all integer values, messages and templates", "tests use a handful of numbers", [L + "controller/client.py"],
     [("set_value / parse", L + "controller/client.py")], AI + " with linear integer facts (no solver)", TRUST)

prop("C11", "Pedal values sent are in range, full-scale at the ends, and only sent on change",
     "For every raw reading 0..65535 and every configuration the value sent by an expression pedal is an integer between 0 and the maximum of the parameter: 0 for the lowest reading and the maximum for the highest one if the number of steps divides 65536. It is 0 below the threshold and never the same value twice in a row, and at most one value is sent per frame interval. With auto calibration nothing is sent until the minimum window is covered, the calibrated value spans the full range and no reading raises an error. A transfer function alone determines the value when set.",
     ["inputs", "histories", "configurations"], "all raw readings and calibration histories", "tests sweep one configuration with few readings",
     [L + "controller/actions/AnalogAction.py"], [("process", L + "controller/actions/AnalogAction.py")], AI + " with intervals", TRUST)

prop("C12", "Encoder values stay in range and preselection sends only what was accepted",
     "Every value sent or shown by a rotary encoder lies between its minimum and maximum, moving the wheel changes it by the scaled number of steps from the current value, and without movement nothing is sent. With an accept button nothing is sent while turning, accepting sends exactly the last shown value once and cancelling (button, other preview or change of the reset parameter) sends nothing and the next preselection restarts from the device's current value. All of this holds also while the device value is still unknown.",
     ["inputs", "histories"], "all positions, step widths and event sequences", "tests script short turns with known values",
     [L + "controller/actions/EncoderAction.py", K + "actions/bank_select_encoder.py", L + "clients/local/actions/encoder_button.py"],
     [("process/accept/cancel", L + "controller/actions/EncoderAction.py")], TS + " with symbolic positions", TRUST)

prop("C13", "Disabled actions have no visible or audible effect",
     "An action whose enable callback says no neither receives switch or pedal events nor changes LEDs or labels, whatever parameter changes, terminations, updates or resets occur. When it becomes enabled (or disabled) this is noticed at the next update exactly once, its buffered display state is dropped and its display is drawn again: it shows what it showed before, even if other actions have used the same LEDs and label meanwhile.",
     ["histories"], "all events while disabled, all enable/disable sequences", "tests check a few events with a mock enable callback",
     [L + "controller/actions/__init__.py", L + "controller/inputs.py", L + "controller/callbacks"], [("enabled checks", L + "controller/actions/__init__.py")], TS, TRUST)

prop("C14", "The tuner takes over all switches and gives them back",
     "When the device reports tuner mode on, every switch is overridden and the tuner display is shown; releasing a switch that has been pushed since then switches the tuner off on the device, and neither that push nor its release reaches the underlying actions, while the release of a press from before the tuner came on does not close it. When the device reports tuner off, every switch is handed back, its actions are redrawn and the default display returns. While the tuner is on its display shows the reported note, the deviance marker stays inside its bounds and follows the reported deviance, and the in-tune colour is shown in tune only. Strobe only reacts to tuner data while the tuner is on.",
     ["histories"], "all sequences of tuner reports, presses and releases", "tests run one on/off cycle",
     [K + "__init__.py", L + "controller/strobe.py", L + "ui/elements.py"], [("tuner display callback", K + "__init__.py")], TS, TRUST)

prop("C15", "Value previews always return the label to its normal state",
     "A value preview on a label, with or without a text callback of its own, shows the given text at once, ends after its timeout unless it is sticky or has none, and at its end the label shows its current normal text and its normal text colour (the configured one, or the one contrasting with the background) again, whatever mix of previews, blinking, resets, text changes and cancels happened. Resetting a preview ends it at once if requested or if it has no timeout, and after its restarted timeout otherwise. Starting a preview cancels every other client that uses the same label once, but never the caller itself, and all users of one label share one preview. Parameter previews show the parameter name and the value in percent of its maximum.",
     ["histories"], "all sequences of preview, update, reset over several clients", "tests run single previews",
     [L + "controller/preview.py", L + "ui/elements.py"], [("preview handler", L + "controller/preview.py")], TS, TRUST)

prop("C16", "Rig and bank selection address the right rig and send complete message pairs",
     "Every rig or bank selection sends the bank number the user asked for (wrapped into the available banks, honouring preselection, offsets and the rig-off alternative) and the requested rig together, as one complete group of messages in the order the device expects, and rig change increments press and release the matching command. Displayed bank, rig and colours follow from the reported rig id as bank = id / rigs-per-bank and rig = id modulo rigs-per-bank for every id. A preselected bank is applied by the next rig selection of any kind and then forgotten. An automatic off rig or bank is the one last reported while the own rig was not selected.",
     ["inputs", "histories", "configurations"], "all rig ids, banks, offsets and option combinations", "tests use a few banks and rigs",
     [K + "actions/rig_select.py", K + "actions/bank_select.py", K + "actions/bank_up_down.py", K + "actions/rig_up_down.py", K + "mappings/select.py"],
     [("rig/bank callbacks", K + "actions")], AI + " with linear integer facts", TRUST)

prop("C17", "Actions sharing a switch own disjoint LED segments",
     "For every number of LEDs and every set of enabled LED-using actions on a switch, the LED segments of different actions are disjoint, in range and in order, together cover all LEDs and each own at least one whenever there are at most as many actions as LEDs, and an action only ever changes the LEDs of its own segments, within the segments of its switch. Setting colour and brightness of a switch drives exactly the LEDs assigned to it, scaled by the brightness.",
     ["configurations", "inputs"], "all LED counts and action counts up to the hardware maximum (8 LEDs, 9 actions)", "tests cover a few counts",
     [L + "controller/actions/__init__.py", L + "controller/inputs.py", L + "hardware"], [("segment computation", L + "controller/actions/__init__.py")], AI + ", counts enumerated", TRUST)

prop("C18", "Paging shows exactly the current page",
     "At any time exactly the actions that belong to the current page are enabled; the next-page button cycles through all pages in their order and back to the first, a direct page button selects its page and shows whether it is selected, and a pager without pages or with an unknown page never crashes. A page change resets every action of the application once, newly enabled actions draw themselves, and the label and LEDs of the pager and of its page buttons show the new page; page buttons also work while the pager itself is disabled. The pager registers and requests the mappings its pages depend on.",
     ["configurations", "histories"], "all page lists and all sequences of next/direct selections", "tests use two or three pages",
     [L + "clients/local/actions/pager.py", L + "clients/local/actions/pager_direct.py"], [("pager action", L + "clients/local/actions/pager.py")], TS, TRUST)

prop("C19", "Labels show what was last set, once ready",
     "Whatever order of text, colour and background changes happens before or after the user interface is shown, a label finally shows the last text (after an update the active override text, and the normal text again after its end), the last background (one colour of a multi colour background) and the configured text colour or, without one, a colour contrasting with the background. Text is wrapped to the configured width with the font of the label, background and text lie inside of the label bounds, the background reduced by the stroke. A background can neither be added nor removed later. Split containers place their children side by side, disjoint, in order and inside the container, however they have been passed. Elements are initialised exactly once, and the interface shows the root element of its callback, keeping the contents of elements shown before.",
     ["histories", "configurations", "inputs"], "all option combinations and call orders", "tests check a few layouts",
     [L + "ui/elements.py", L + "ui/ui.py", L + "ui/layout.py", L + "ui/DisplaySplitContainer.py"], [("display label", L + "ui/elements.py")], TS, TRUST)

prop("C20", "Set, request and response messages of a parameter address the same parameter",
     "For every device parameter the request and response templates carry the same address and the function codes that belong together, an NRPN set message uses the address of its response, and set messages of parameters that are set by control change use the controller number documented for that parameter. Every effect slot uses its own controller and address page everywhere. Parameter messages are well-formed: every byte is 7-bit and lists of set, request and response messages have the lengths their users rely on.",
     ["configurations", "programs"], "all shipped parameter mappings x all slots/pedals/banks", "tests compare a few mappings against literals",
     [K + "__init__.py", K + "mappings"], [("mapping factories", K + "mappings")], "constant evaluation of all mapping factories plus a relational lint over their messages", TRUST)

prop("C21", "Parameters are singletons with unique names",
     "Two parameter definitions share a name only if they are the same parameter with the same messages, so all users of one parameter share one value, and no definition is silently replaced by another one of the same name. Different arguments that lead to different messages (slots, banks, rigs, channels, controllers) yield different names. Creating the same parameter again yields the same object.",
     ["configurations", "programs"], "all pairs of mapping factories and arguments", "no test compares names across factories",
     [K + "mappings", L + "clients/local/mappings", L + "clients/boomerang/mappings", L + "controller/client.py"], [("singleton registry", L + "controller/client.py")],
     "constant evaluation of all mapping factories, pairwise name/message comparison", TRUST)

prop("C22", "Effect type tables are total and consistent",
     "Every effect type number the device can report is assigned to exactly one category, every category has a name and a colour, and type names exist only for type numbers that belong to a category (or the empty slot). An effect slot display always shows the colour of the category and the name of the last reported type, and is shown enabled exactly if the slot is not empty and reported as on, in whatever order type and state arrive; the empty or unknown slot is shown disabled.",
     ["inputs"], "all 14-bit type numbers", "tests check a few types", [K + "actions/effect_state.py", K + "actions/effect_state_extended_names.py", L + "controller/callbacks/effect_enable.py"],
     [("category lookup", K + "actions/effect_state.py")], AI + " (interval partition of the type numbers) plus table lint", TRUST)

prop("C23", "Device hardware tables are collision-free",
     "In each supported device definition every switch, wheel and pedal uses its own GPIO pins, its own LEDs and a unique name, LED indices are contiguous from zero, and no pin is shared with the pins of display, LEDs or MIDI ports. All definitions have the fields the controller reads.",
     ["configurations", "programs"], "all device definition modules", "tests do not import the device tables (hardware modules)", [L + "hardware/devices", L + "hardware/adafruit"],
     [("device tables", L + "hardware/devices")], "constant evaluation of the device tables plus a relational lint", TRUST)

prop("C24", "Hardware adapters neither crash nor distort what they forward",
     "The MIDI adapters forward every message unchanged in both directions on the configured ports and channels; switch, wheel and pedal adapters report pressed, position and reading exactly as the hardware delivers them (switches are active low). The LED driver is set up for exactly the number of LEDs needed.",
     ["inputs"], "all messages and readings", "the adapters are not covered by tests (hardware modules)", [L + "hardware/adafruit"],
     [("adapters", L + "hardware/adafruit")], AI, TRUST)

prop("C25", "Instances never share mutable state by accident",
     "Creating or using one action, callback, display element, client or controller never changes another, independently created one: no mutable default argument or class-level container is modified or retained in a way visible to other instances, except the documented registries. Configuration dictionaries, option lists and message templates passed in by the user are not modified by creating the objects.",
     ["programs", "configurations"], "all functions and classes", "tests use fresh objects and cannot see aliasing that only several instances expose", [L],
     [("constructors", L)], "escape analysis of mutable defaults and class-level containers by abstract interpretation", TRUST)

prop("C26", "Every attribute, name and interface method used is defined",
     "No code path of the firmware reads a name or instance attribute that no earlier path can have set, calls a function with arguments its signature does not accept, or passes as callback, action, listener or display element an object missing the methods its users call. Shared data between actions is only read under a key that some component writes.",
     ["programs", "configurations", "histories"], "all functions of the firmware", "an undefined attribute is only found when exactly that path is executed",
     [L], [("all classes", L)], "attribute/name/arity resolution over the syntax tree and class hierarchy", TRUST)

prop("C27", "Options mean the same everywhere",
     "Options of the action factories reach the behaviour they name and are not dropped, swapped or overwritten: the display is the one that shows the action, the ID is that of the action, LEDs are used only if use_leds says so, the enable callback decides whether the action is enabled, colours, texts, colour and text callbacks are shown, LED brightness and dim factors are applied, the mode decides what push and release do, times are used for timers, accept and cancel buttons accept and cancel, and every other option makes a difference. Dim factors and brightnesses of binary switches (nothing, 'off' for the on state, 'on' for the off state) and of bank up/down ('on', 'off') select the configured global value of that kind, any other value is used as given.",
     ["configurations"], "all factories x all options", "tests exercise some options of some factories", [L + "clients"],
     [("action factories", L + "clients")], "parameter-to-sink tracking through every factory by abstract interpretation", TRUST)

prop("C28", "The editor's catalogue matches the firmware",
     "Every action, callback and mapping offered by the web editor exists in the firmware module it names, the parameters it offers are those of that function, in the same order, every required parameter is offered, and offered defaults equal the defaults of the firmware. Every public action factory of the firmware is offered, and referenced types, fonts and key codes exist.",
     ["programs"], "all catalogue entries", "the two sides live in different languages, tests do not compare them", ["web/htdocs/definitions", L + "clients"],
     [("definitions", "web/htdocs/definitions")], "cross-artefact signature comparison (JSON against syntax tree)", TRUST)

prop("C29", "All shipped configurations load",
     "Every shipped configuration, example and template only imports names that exist, calls every factory with arguments it accepts, names LEDs, inputs and labels that exist, uses each option key the firmware understands, and yields inputs the controller can initialise. No configuration assigns the same input twice. The Multiboot example, which is a boot menu and not a configuration, is excluded.",
     ["programs", "configurations"], "all shipped configuration files", "configurations are not part of the test suite", ["content", "examples", "web/htdocs/templates"],
     [("configuration files", "content/inputs.py")], AI + " of every configuration file against the firmware, with representative device answers", TRUST)

prop("C30", "The firmware stays importable on CircuitPython",
     "Firmware modules only import modules that exist on the device (built in, shipped or part of the firmware) and only names these define, use only functions of the shipped reduced standard library modules, use no syntax or built-ins the target interpreter lacks, and have no import cycle that reads a name before it is defined.",
     ["programs"], "all firmware modules", "tests run on desktop Python with the full standard library and mocks", ["content"],
     [("imports", "content/lib")], "import-graph and construct lint over the syntax tree", TRUST)

prop("C31", "The browser emulator runs every configuration without losing MIDI",
     "The emulator in the web editor starts with every shipped configuration and in explore mode, and its ticks run without errors: every external module, class, function and attribute the firmware uses there is provided by the emulator's replacements with a compatible signature, and the page loads every Python module which is imported. Emulated switches, pedals and wheels report the state of their element on the page and colours set for an LED reach its element. MIDI bytes queued in the browser are delivered to the firmware completely and in order, regardless of message and read sizes, and each byte block the firmware writes is handed to the browser exactly once and unchanged; without a MIDI connection reading and sending do nothing.",
     ["programs", "inputs"], "all shipped configurations, all external uses, all queue contents", "the wrappers only run in the browser", ["web/htdocs/python", "web/htdocs/js/PySwitchRunner.js"],
     [("runner", "web/htdocs/python/PySwitchRunner.py"), ("wrappers", "web/htdocs/python/wrappers")], "abstract interpretation of the emulator over the configurations, import resolution against its replacements", TRUST)

prop("C32", "Saving a configuration from the editor changes only what was edited",
     "For configurations whose Inputs and Splashes are assigned on module level: the tree which the editor's parser delivers holds the names, arguments, order and literal text of the source expressions, with variables (assigned once) resolved and expressions it cannot represent kept as text. Writing the unchanged tree back leaves every statement of inputs.py and display.py as it is (apart from formatting, imports and the names given to positional arguments of DisplayBounds), also when done again. After an edit of the tree (actions, inputs, arguments, variables, splashes), the files hold the edited tree, every variable of it is assigned exactly once and before its use, and all other statements are unchanged. No valid statement or expression in the files makes reading or writing fail. Imports in use are never removed, moved or replaced, new ones are only added on module level for names in use which the file does not define itself, and every name in use that the editor offers is available in the file.",
     ["inputs", "programs", "edits"], "all configuration sources and all edits of their trees", "tests run a few sources and edits", ["web/htdocs/python/parser"],
     [("parser", "web/htdocs/python/parser/PySwitchParser.py"), ("extractors, generator and transformers", "web/htdocs/python/parser/misc")], "abstract interpretation of the parser over a model of the libcst syntax tree", TRUST)

prop("C33", "Generic actions send exactly what they were configured to",
     "Custom MIDI actions send exactly the configured message on push and, if one is configured, the release message on release. Rotating actions cycle through all their messages, release messages, colours and texts in order, one step per push and release. Parameter change actions set the known value plus the offset, kept inside the range, once per push and, while the switch is held, each time the repeat interval is over; they never set anything while the value is unknown nor after the release, even if that has been lost by paging or the tuner, and their LED and label colours stay in range. Keyboard actions send each configured key once in order on push and leave no key pressed.",
     ["inputs", "histories", "configurations"], "all configured values and push sequences", "tests use small examples",
     [L + "clients/local/actions"], [("local actions", L + "clients/local/actions")], TS, TRUST)

prop("C34", "Tempo and morph displays follow the device",
     "Each push of the tap tempo button sends the tap command once and each release its end, tempo LEDs are lit exactly while the device's beat signal is on, and the displayed tempo is the reported value divided by 64, rounded. A changed tempo is previewed, but neither the first reported one nor the one of a newly loaded rig. Morph buttons send one morph command per push (and its release) and toggle the displayed morph state, pure morph displays send nothing. Morph displays interpolate between their two colours according to the current morph state, which follows the reports of the device, never leaves its range and is reset when a rig or bank is selected with the pedal.",
     ["inputs", "histories"], "all values and sequences", "tests use few values", [K + "actions/tempo.py", K + "actions/morph.py", K + "mappings"],
     [("tempo and morph callbacks", K + "actions")], TS, TRUST)

prop("C35", "The emulated Kemper device speaks the firmware's protocol",
     "The virtual Kemper of the web emulator (as KemperClient creates it) speaks the protocol of the firmware. It answers every numeric (function 0x41) or string (0x43) request of a firmware mapping with exactly one message which this mapping takes as its value, of the mapping's type, and the decoded value is the device's value for all values from 0 to 16383 and all texts; this includes parameters it has not been set up with. Set messages of the firmware are understood (no error, not unparsed) and set the value they carry, which is read back by the same mapping (control change values as they are, the morph pedal times 128, tempo as 64 times the beats per minute from 40 to 255). The firmware's beacon starts a session: with the init flag every parameter of the firmware's selected parameter set is sent at once, afterwards every change of such a parameter is sent unasked with its value, sensing messages the firmware accepts are sent more often than its sensing timeout, until the lease time the firmware encoded has passed without renewal; without a session nothing is sent unasked. Selecting rig r (CC 50 to 54) of the current or a preselected bank b (CC 47, used once) leads to the reported rig id 5 * b + r, bank up/down steps by 5 and wraps at 625; the rig's name is reported with it. The tuner mode (CC 31) is reported and switches the reports of note and deviance on and off; the tempo display parameter toggles twice per beat; tapping the tempo sets it. Everything the device sends is a valid MIDI message (data bytes below 128), also after 128 sensing messages.",
     ["programs", "inputs", "histories"], "all mappings, values and session histories", "the virtual device is JavaScript, the firmware Python: no test relates the two", ["web/htdocs/clients/kemper/virtual", K + "__init__.py"],
     [("virtual client", "web/htdocs/clients/kemper/virtual")], "cross-language abstract interpretation: the JavaScript is lowered to the program model", TRUST)

prop("C38", "Explore mode identifies every usable port and LED",
     "In explore mode every general purpose port of the board which can be claimed as a switch is listened to, with a label of its own showing its name: at most the given number of columns per row, all inside the display and without overlap; ports which are in use otherwise are left out without a trace, and any other error is not hidden. Enough LEDs are initialized for all ports. Each push of a port (also while other switches are held) moves the light by exactly one group of LEDs, forward for the first, third, ... port and backward for the others, around at the ends; exactly this group is white, the groups of all other ports are dimly blue, the display shows exactly the indices which are lit and the number of LEDs, and exactly the label of the port pushed last is red. Holding or releasing a switch changes nothing. This holds for all numbers of ports, LEDs per switch and columns, with and without a display or LEDs.",
     ["inputs", "histories", "configurations"], "all boards, unusable ports and histories of pushes", "the unit tests use one board and check a few pushes", [L + "controller/explore.py"],
     [("explore mode", L + "controller/explore.py"), ("switches", L + "controller/inputs.py")], "abstract interpretation of explore mode with a real user interface over boards with usable and unusable ports", TRUST)

prop("C39", "Files transferred over the MIDI bridge arrive unchanged",
     "The editor's MIDI bridge (JsMidiBridge, talking to an instance of itself or its port on the other side) transfers texts without changing them: a text sent in chunks of any size arrives exactly once, exactly as it has been sent (any Unicode text including characters of two code units and byte order marks, also at chunk borders, and empty files) and with its path, and the sender is told when everything has been acknowledged. A requested file is sent completely; a file which does not exist leads to an error at the requesting side, never to a file. Everything sent consists of MIDI data bytes (below 128) under the bridge's manufacturer ID. The start message and the first chunk are sent at once, every further chunk only after the one before has been acknowledged; the receiver is told about the start, the number of chunks and each chunk in order. A damaged message (any changed bit of its content) is answered with an error and never changes what arrives; lost or repeated messages never lead to a changed or second file. Transfers in both directions and several at once do not disturb each other, their IDs differ. Numbers and bytes keep their values when they are coded for MIDI.",
     ["inputs", "histories", "schedules"], "all texts, chunk sizes and histories of messages", "there is no test of the bridge in the repository's test suite; the defects depend on the position of characters in chunks", ["web/htdocs/lib/jsmidibridge"],
     [("bridge", "web/htdocs/lib/jsmidibridge/JsMidiBridge.js")], "abstract interpretation of the bridge, lowered from JavaScript to the program model, connected to a second instance", TRUST)

prop("C36", "Switch presses are noticed within a bounded time",
     "On the supported hardware the time between a switch press and its processing stays below 50 milliseconds for every configuration and MIDI load.",
     ["schedules"], "all loads", "wall-clock time on the target is not visible to tests", [L + "controller/controller.py"], [("tick", L + "controller/controller.py")],
     na="wall-clock latency depends on the target's execution speed and SPI display timing, which no static argument over the source bounds; the structural part (polling before every message) is claimed as C05")

prop("C37", "The firmware and any shipped configuration fit into the device's memory",
     "Loading any shipped configuration leaves at least the configured minimum of free memory on every supported device.",
     ["configurations"], "all shipped configurations", "desktop tests have no memory limit", ["content"], [("memory watch", L + "stats.py")],
     na="heap use depends on the CircuitPython allocator, fragmentation and bytecode sizes; no sound static bound is in reach from the source")
