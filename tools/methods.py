"""id -> (deciding method, oracle, bounds, cost)"""
M = {
"C01": ("typestate exploration of every factory x option variant with nullable parameter values; reachability of implicit exceptions", "no partition ends in Raise", "each event alphabet closed to a fixpoint; values unknown / some known", "60-100 s"),
"C02": ("typestate of SwitchController/ContinuousController with opaque actions; edges, hold timer, enable and override results are volatile", "documented dispatch protocol as a reference automaton", "fixpoint; 0-3 actions per list, nesting depth 2", "5 s"),
"C03": ("all modes x reachable states x events", "documented mode table", "fixpoint", "2 s"),
"C04": ("received value and references symbolic, all comparison modes and value kinds", "the comparison itself; expected sends per direction; LED/label as function of the state", "integers unbounded; value lists of length 2", "14 s"),
"C05": ("every path of tick/init/receive loop with opaque inputs and messages; event order on the trace", "between two polls <=1 message, <=1 update", "loop peeled and widened, limit symbolic/1..3", "6 s"),
"C06": ("typestate of the request table, two listeners, three parameters, volatile timers", "reference table kept beside the exploration", "fixpoint", "22 s"),
"C07": ("typestate of the bidirectional client", "reference subscription table", "fixpoint", "28 s"),
"C08": ("typestate of the protocol with timer expiries and each class of message", "MIDI specification of the beacon, session automaton", "fixpoint", "5 s"),
"C09": ("all routing tables over application and two devices x availability patterns of messages", "set of (message, target) pairs", "tables up to the enumerated size; two cycles", "20 s"),
"C10": ("symbolic values through set_value, symbolic messages through parse", "inverse coding", "values 0..16383", "3 s"),
"C11": ("symbolic raw readings, interval bounds of the value sent, twin with a different history", "range, monotone ends", "readings 0..65535", "6 s"),
"C12": ("symbolic turns for the arithmetic, typestate over a small complete value range for preselection", "reference automaton", "range 0..3 for typestate, unbounded for arithmetic", "12 s"),
"C13": ("typestate of every factory while its enable callback says no", "no LED/label/send event", "fixpoint", "30 s"),
"C14": ("typestate of tuner callback, overridden switches, strobe and real UI controller over tuner reports, pushes, releases, notes and deviances", "reference automaton: who gets which push, which splash is shown; marker interval inside the display bounds", "fixpoint over 2 switches, all deviances symbolic", "56 s"),
"C15": ("typestate of the preview of a label (8 label configurations) over previews, resets, timer ticks, text and background changes by two clients", "reference automaton: normal text and colour after every end", "fixpoint over 10 kinds of preview x 2 clients", "40 s"),
"C16": ("typestate of every rig/bank action with a preselecting and a selecting button; scripted walks for all option combinations", "python oracle of bank, rig, preselection and memory", "7 combinations to fixpoint, 95 by scripts; rig ids sampled quick, all thorough", "40 s"),
"C17": ("segments computed for every LED and action count; colour writes of real switches", "disjoint, ordered, covering", "0..8 LEDs x 0..9 actions", "13 s"),
"C18": ("typestate of pagers and page buttons over page selections in a real controller", "page index automaton", "fixpoint, 0..4 pages", "5 s"),
"C19": ("typestate of a real label over all orders of text, colour, background, override and init changes; abstract layout of containers and helpers over an opaque display library", "reference automaton of text, background and text colour; disjointness and containment of rectangles", "fixpoint per configuration (16); layouts and splits on grids", "5 s"),
"C20": ("constant evaluation of every mapping factory; relation of set, request and response", "Kemper MIDI specification table", "all factories x all argument values", "4 s"),
"C21": ("names of all mappings pairwise against messages; registry abstractly executed", "equality of names implies equality of messages", "all factories x arguments", "4 s"),
"C22": ("category function evaluated for 0..16383, tables compared; slot display closed over reports", "documented type families", "complete", "6 s"),
"C23": ("constant evaluation of device definitions", "disjointness and documented pins", "all devices", "2 s"),
"C24": ("abstract run of the adapters over opaque drivers; events at the library boundary", "hardware facts", "all adapters", "2 s"),
"C25": ("write sets against reachable regions, twin objects", "regions disjoint", "all factories and classes", "6 s"),
"C26": ("nine syntax-tree rules plus abstract runs of every factory in a real controller", "definedness", "all code; synthetic configurations", "9 s"),
"C33": ("typestate of the local actions on a real switch over pushes, releases, reports, disabling and overriding; raw messages and key events at the boundary", "reference: configured bytes, cyclic positions, clamped value + offset", "grids of options; all boundary values of the range; fixpoint for repeating", "3 s"),
"C34": ("typestate of tap, tempo and morph actions on real switches over reports, pushes, releases, rig selections and tuner mode", "reference automaton of beat, tempo and morph state; colours by linear interpolation, tempo by value/64", "fixpoints; tempo and morph values sampled quick (all multiples of 8 thorough)", "40 s"),
"C28": ("relational lint of the JSON catalogue against signatures and values", "firmware source", "all entries", "3 s"),
"C29": ("abstract evaluation of each configuration directory, controller built and started", "no Raise, hardware used once", "57 configurations, bounded event rounds", "26 s"),
"C30": ("import simulation for each entry point, construct lint", "CircuitPython module/built-in tables", "all modules", "2 s"),
"C31": ("abstract interpretation of the emulator's runner over each configuration (patched modules take effect); import and attribute resolution against the replacements; MIDI wrappers on symbolic bytes", "browser modelled by element values and call records; list of queued bytes", "all shipped configurations × protocol clients, 5 ticks; 231 combinations of message and read sizes", "25 s"),
"C27": ("parameter-to-sink tracking: every factory is built by abstract evaluation with a distinctive value per option and driven through reports, pushes, releases, turns and timeouts; two values of options without a sink of their own have to be distinguishable", "oracle per option name (ID, enabled state, LED/label colour, text, brightness, dim factor, timer interval, messages)", "all options of all 48 factories, 11 device values, one history", "50 s"),
"C35": ("the device's JavaScript is parsed and lowered to the program model and interpreted together with the firmware: every request, set message and beacon of the firmware is handed to the device, everything it sends to the firmware's mappings and protocol object", "the firmware's own mappings, value coding and lease; rig id = 5 * bank + rig, tempo = 64 * bpm, morph pedal = 128 * value", "all mapping factories with all arguments; numbers 0, 1, 127, 128, 8191, 16383, four texts; leases 10 and 30 s (five thorough)", "60 s"),
"C38": ("abstract interpretation of the explore mode controller with the real user interface and switches over boundary boards: what the display library shows and the LED driver holds after every push from every position of the light", "position of the light modulo the number of usable ports; indices i*n..i*n+n-1; label geometry recomputed from the rectangles on the display", "boards of 1 to 13 ports with every kind of unusable port, with/without LEDs and display, 1 to 4 LEDs, 1 to 100 columns; every push from every position (up to 8 ports; border positions above)", "30 s"),
"C39": ("the bridge's JavaScript is parsed and lowered to the program model; two instances are connected and interpreted while texts are sent, requested, damaged, lost and repeated", "the text itself as UTF-16 units (TextEncoder and TextDecoder modelled by their specification), the protocol documented in the file", "15 texts with all kinds of characters in chunks of 1 to 100, one with a character across the editor's chunk border; damage of every message, loss or repetition of each of the first six", "100 s"),
"C32": ("abstract interpretation of the editor's code parser (extractors, generator, transformers) over a model of libcst (node classes, visitors, scopes, printer, written for the interpreter in sa/libcst_model and sa/cst.py); read, edit and write of a grammar of configuration sources", "Python's own syntax tree of the sources before and after; tree contents compared with the source expression; def/use order and scopes of imports recomputed independently", "every expression kind in every place of the tree, statement and import shapes, 40 edits, shipped configurations sampled quick, all thorough; libcst itself is trusted to behave as modelled (cross-checked by hand against the real one)", "175 s"),
}
