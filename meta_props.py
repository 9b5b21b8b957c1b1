LAYOUT = ['draw', 'ports', 'place', 'junction', 'connect', 'pipe', 'path', 'rgraph', 'geometry', 'erd', 'mir']
MIR, LAY, REN, ERD, PAR, GEO = 'src/mir.rs', 'src/layout.rs', 'src/renderer.rs', 'src/erd.rs', 'src/parser.rs', 'src/geometry.rs'
MAP = 'std HashMap is represented by an assumed contract (VxMap: insert, get) over the contents of its keys; derived PartialEq, Eq, Hash of EntityPath compare contents'
ERDNOTE = 'Proof for all modules: Module::into_mir and everything it calls in erd.rs and mir.rs verified against contracts that speak about definitions and relations only. Trusts the petgraph and HashMap contracts, derive_builder chains read as struct literals, and String clone/Display.'
prop('C01', 'Every entity becomes one table whose rows mirror its definition',
  "Converting a module gives exactly one table per entity definition, in definition order; each table holds a header row titled with the entity's name followed by one row per field, in field order, showing the field's name, its type keyword and, exactly for keyed fields, its PK or FK badge. No row or table is shared, merged or dropped, also when names repeat or are empty.",
  ['inputs'], 'every module: any number of entities and fields, any names, types and keys, relations anywhere', 'Tests convert no module directly; the golden files show a handful of diagrams.',
  [ERD, MIR], [('Module::into_mir builds header, field rows and record', ERD), ('NodeData::append_child keeps order', MIR)], ['mir', 'erd', 'geometry'], trusted=[GRAPH, MAP], note=ERDNOTE)
prop('C02', 'Every relation between known names becomes exactly its edge',
  'For each relation whose two ends name entities or fields defined earlier in the module, conversion adds exactly one edge, in relation order, from the table or row named first to the one named second; when a name was defined more than once, its latest earlier definition counts. A relation with an end that names nothing defined earlier adds nothing, and nothing else adds edges.',
  ['inputs'], 'every module, with duplicate names, dotted names, unknown ends and relations before definitions', 'Golden files hold a few relations with unique names only.',
  [ERD, MIR], [('node_paths map from entity path to node', ERD), ('Document::add_edge keeps order', MIR)], ['mir', 'erd', 'geometry'], trusted=[GRAPH, MAP], note=ERDNOTE)
LAYNOTE = 'Proof for all modules up to the height bound: %s verified against a contract over definitions of the grid; constants are read from the source. Trusts the f32 axioms, the petgraph contracts and the extractor.'
LAYA = ['the diagram is at most 2^21 - 4096 units high (beyond, f32 is no longer exact)']
prop('C03', 'Tables are placed on a grid, 80 apart, with their rows tiled inside',
  'After placement every table has a finite rectangle; tables go three to a grid row in definition order, left to right and top to bottom, tables of one grid row share their top edge and any two tables are at least 80 apart horizontally or vertically. The rows of a table are as wide as the table, equally high, and tile it from top to bottom in order without gap or overlap.',
  ['inputs'], 'every module whose diagram is at most 2^20 units high', 'Golden files place at most a handful of tables.',
  [LAY, MIR], [('SimpleLayoutEngine::place_nodes', LAY)], ['mir', 'geometry', 'place'], trusted=[GRAPH, FLOATS], note=LAYNOTE % 'place_nodes', assumptions=LAYA)
prop('C04', 'The view box is valid and surrounds every table by 50',
  'Placement returns a view box with finite coordinates and positive width and height, for the empty module too, and every table lies inside it with a margin of at least 50 on all four sides.',
  ['inputs'], 'every module whose diagram is at most 2^20 units high, the empty one included', 'Golden files fix the view box of a few diagrams, none of them empty.',
  [LAY], [('view box computed by SimpleLayoutEngine::place_nodes', LAY)], ['mir', 'geometry', 'place'], trusted=[GRAPH, FLOATS], note=LAYNOTE % 'place_nodes', assumptions=LAYA)
prop('C05', 'Terminal ports sit at the middle of exactly the sides that may connect',
  'A placed table gets exactly one port per side; a row gets one on its left and right side, and one on top exactly if it is the first row and one at the bottom exactly if it is the last. Each port lies in the middle of its side and faces outwards, and all port identifiers of a document are distinct.',
  ['inputs'], 'every placed module: any number of rows per table', 'Golden files only show ports that a route happens to use.',
  [LAY, MIR], [('SimpleLayoutEngine::place_terminal_ports', LAY), ('NodeData::add_terminal_port numbers ports', MIR)], ['mir', 'geometry', 'place', 'ports'], trusted=[GRAPH, FLOATS], note=LAYNOTE % 'place_terminal_ports', assumptions=LAYA)
ASTAR = 'petgraph::algo::astar is represented by an assumed contract: a cheapest walk without repeated nodes if there is any walk, given costs that the closures compute and the estimate 0'
SQRT = 'the rounded root of the rounded square of a grid value is that value (exhaustively tested by the harness)'
NETA = ['costs of routes stay below 2^32 (proved for the ways the proof constructs)', 'fewer than 2^32 nodes in the route graph']
ROUTENOTE = 'Proof for all modules up to the height bound: junctions, ports, connections, path search and their composition draw_edge_path verified against contracts (%s). Trusts the f32 axioms, the petgraph, A* and HashMap contracts and the extractor.'
prop('C06', 'Every route joins a port of its own source to a port of its own target',
  "After layout each relation has a route of its own: it starts at a port of that relation's source and ends at a port of that relation's target, however many relations there are and in whatever order they were declared.",
  ['inputs'], 'every module with any number of relations between any tables and rows', 'Golden files contain few relations; a mix-up needs several with distinct ends.',
  [LAY, MIR], [('paths are collected per edge id and assigned to edges in order', LAY), ('find_shortest_edges_path', LAY)], LAYOUT, trusted=[GRAPH, FLOATS, ASTAR, MAP], note=ROUTENOTE % 'ends', assumptions=LAYA + NETA)
prop('C07', 'Routes are made of horizontal and vertical segments and respect port sides',
  'Each segment of a route is horizontal or vertical and has a positive length. A route leaves its first port in the direction that port faces and arrives at its last port against the direction that one faces.',
  ['inputs'], 'every module with relations', 'Golden files contain few routes.',
  [LAY], [('connect_nearest_neighbor_edge_junctions joins only aligned, connectable nodes', LAY)], LAYOUT, trusted=[GRAPH, FLOATS, ASTAR, MAP], note=ROUTENOTE % 'segments and port sides', assumptions=LAYA + NETA)
prop('C08', 'Routes never run through a table',
  'No segment of a route comes more than one unit inside any table: every segment stays out of each table shrunk by one unit on every side, including the tables the relation connects.',
  ['inputs'], 'every module with relations: any arrangement of tables, heights and ends', 'Golden files contain few routes; a missed collision needs a table in the way at the right place.',
  [LAY, GEO], [('no_collision against every table when connecting junctions', LAY), ('Rect::intersects_line', GEO), ('remove_overlapped_junction_nodes', LAY)], LAYOUT, trusted=[GRAPH, FLOATS, ASTAR, MAP], note=ROUTENOTE % 'collisions', assumptions=LAYA + NETA)
prop('C09', 'Each route is a cheapest one between any pair of ports of its ends',
  'A route only uses connections of the published route network, and its cost, the sum of its segment lengths rounded down, is the least over all routes of that network from any port of the source to any different port of the target.',
  ['inputs'], 'every module with relations', 'Golden files contain few routes, and no test compares alternatives.',
  [LAY], [('find_shortest_edges_path takes the minimum over all port pairs', LAY), ('compute_shortest_path', LAY)], LAYOUT, trusted=[GRAPH, FLOATS, ASTAR, MAP, SQRT], note=ROUTENOTE % 'costs', assumptions=LAYA + NETA)
SVG = [GRAPH, FLOATS, 'svg crate is represented by an assumed contract (units/p_svg.vx): a document is a tree of elements with attributes; writing it gives the attributes and the characters of text nodes as given, with only line breaks around text', 'Display of numbers and colours gives characters that need no escaping; std::io::Write is any writer that keeps what it accepted']
RENA = LAYA + NETA
RENNOTE = 'Proof for all modules up to the height bound: SVGRenderer::render and every drawing function it calls verified against contracts over the tree of elements (%s); the composition with layout (vx_draw) shows that its preconditions always hold. Trusts the svg crate contract, the f32 axioms and the extractor.'
prop('C10', 'Layout and drawing complete for every module, and no route is degenerate',
  'Placement, routing and rendering finish without a panic or error for every module, whatever its names, sizes and relations, self relations, parallel relations and relations between a table and its own row included. Every relation gets a route of at least two points that never reverses its direction.',
  ['inputs'], 'every module', 'Golden files run a handful of modules.',
  [LAY, REN], [('route graph construction and A*', LAY), ('assertions and the turnaround panic of draw_edge_connection', REN)], ['render', 'whole'] + LAYOUT, trusted=SVG + [ASTAR, MAP], note='Proof for all modules up to the height bound: every unwrap, index, overflow, panic and loop of conversion, placement, ports, routing and rendering is an obligation; the composition of all of them (vx_draw) is verified to need nothing but the module and to fail only if the writer does. Trusts the axioms and contracts listed.', assumptions=LAYA + NETA)
prop('C11', 'The SVG is well-formed XML and shows every name as it was written',
  'For every module the output is well-formed XML, and its text elements read, in order, exactly the names, type keywords and badges of the rows, whatever characters the names contain; characters XML cannot represent are shown as U+FFFD. No name can introduce markup.',
  ['inputs'], 'every module with any Unicode names', 'Golden files only use plain ASCII names.',
  [REN], [('escape_text, used by draw_text', REN)], ['render', 'whole'] + LAYOUT, trusted=SVG + [ASTAR, MAP], note=RENNOTE % 'escaping, texts and well-formedness', assumptions=RENA)
prop('C12', 'The SVG draws the layout faithfully',
  'The output draws, in document order, each table and row where layout put it, each separator and badge inside its row, and each relation as a path that starts at the first point of its route, passes every further point, or rounds the corner at it by the same radius before and after, and ends at the last point, with a dot at both ends. The viewBox is the view box and nothing is drawn twice or left out.',
  ['inputs'], 'every laid out module: all eight kinds of corners and straight joints', 'Golden files contain few corners.',
  [REN], [('SVGRenderer::render', REN), ('draw_edge_connection', REN)], ['render', 'whole'] + LAYOUT, trusted=SVG + [ASTAR, MAP], note=RENNOTE % 'every drawn element, its place and order', assumptions=RENA + ['the debug overlay is not asked for, as in main'])
prop('C13', 'An incomplete layout is reported and nothing is written',
  'Rendering a document in which a table or row has no origin or no size, or a relation has no route, fails with the invalid-layout error naming that node (for a relation, its source), and not a single byte reaches the writer. A failure of the writer itself is returned as an I/O error, and a complete layout is never refused.',
  ['inputs', 'fault_sequences'], 'every document with any one table, row or route not laid out; every writer', 'No test renders an incomplete document.',
  [REN, 'src/error.rs'], [('early returns of SVGRenderer::render before the single write_all', REN)], ['render', 'whole'] + LAYOUT, trusted=SVG + [ASTAR, MAP], note=RENNOTE % 'which error, and what reached the writer, for every writer', assumptions=RENA)
prop('C14', 'Rectangle and segment tests are exact on the coordinates layouts use',
  'For rectangles and points with coordinates that are multiples of one half up to 2^21 units: containment includes the border, a horizontal or vertical segment is said to intersect a rectangle exactly if it shares a point with it and does not have both ends strictly inside, insetting moves each side by exactly the given amount and never gives a negative size, and the direction between two points is the one of the difference of their coordinates. Edges, middles and sizes of a rectangle are exact as well.',
  ['inputs'], 'every rectangle, point, horizontal or vertical segment and inset on the half-unit grid up to 2^21, segments drawn in all four directions, degenerate ones included', 'Unit tests sample some dozen segments, none drawn upwards through a rectangle.',
  [GEO], [('Rect::intersected_line (Liang-Barsky)', GEO), ('Rect::contains_point, inset_by, mid_x, max_x', GEO), ('Point::orthogonal_direction', GEO)], ['geometry'],
  note='Proof for all grid values: every function is verified against its contract, the collision test included. Trusts the f32 axioms of units/p_float.vx (correct rounding of quotients) and the extractor.',
  trusted=[FLOATS, 'quotients: IEEE division is correctly rounded (monotone, sign and comparison with 1 exact for grid operands)'],
  assumptions=['coordinates are multiples of 1/2 with magnitude at most 2^21'], rule='rectangles and segments near each other, in halves, at magnitudes 12 to 2^22; distinct, segment not a point, rectangle not empty', n=3000000)
prop('C15', 'A layout engine can be used again for other documents',
  'Laying out a document with an engine that was used before gives the same placement, ports and routes as a fresh engine, whatever it laid out earlier, the same document included.',
  ['histories'], 'every sequence of documents laid out with one engine', 'Tests use a new engine each time.',
  [LAY], [('draw_edge_path starts from an empty route graph', LAY)], LAYOUT, trusted=[GRAPH, FLOATS, ASTAR, MAP], note='Proof: the composition of placement, ports and routing satisfies its full contract for an engine in any state (no precondition on it), and the route graph is empty, like a new one, before anything is added. That equal states give equal results is the determinism of safe Rust without randomness or shared state.', assumptions=LAYA + NETA + ['the functions are deterministic (no randomness, no iteration over hash maps: both checked by the extractor, which has no contract for either)'], rule='pairs of modules laid out with one engine, the same module twice included')
CHUM = ['chumsky 0.8: contracts of its combinators (units/p_parse.vx), over an abstract result of a parser at a position: success without errors, failure without errors, or nothing said', 'is_digit, from_str_radix, char::from_u32: contracts on hexadecimal digits and scalar values']
PARNOTE = 'Proof for all texts: tokenizer, erd_module_parser and parse are verified as they are built from combinators, closure by closure and stage by stage, against the documented grammars; %s. Spellings are defined by relations on characters and tokens, not by the parser. Trusts the contracts of the chumsky combinators.'
PARA = ['the tail method chain of a parser function is named stage by stage by the extractor; of nested assertions each is checked in a copy of the function in which the others are assumed']
prop('C16', 'Source text parses to exactly the module it spells',
  'A text that spells a module by the documented grammar parses without errors to that module: its name, its entities, fields, types and keys, and its relations between entities or fields, all in order. Back-quoted identifiers may hold any character, written literally or by the documented escapes.',
  ['inputs'], 'every module and each of its spellings', 'Two tests parse two texts.',
  [PAR], [('tokenizer', PAR), ('erd_module_parser', PAR)], ['parse'], trusted=CHUM, note=PARNOTE % 'the theorem on parse: a text that spells a module is parsed to it, without errors', assumptions=PARA, rule='modules with any names, spelled plainly or with escapes; distinct, at least one entry')
prop('C17', 'Parsing any text ends with a module or a diagnostic, never a panic',
  'For every text parsing terminates without panicking and returns a module or at least one diagnostic, and each diagnostic points inside the text or at its end.',
  ['inputs'], 'every text', 'Two tests parse two valid texts.',
  [PAR], [('parse and error recovery of the tokenizer', PAR)], ['parse'], trusted=CHUM, note='Proof of the repository part: every closure given to a combinator is only called where it cannot panic (the unwrap of the hexadecimal digits included), no repetition is given a parser that can succeed without consuming, parse itself cannot overflow, gives a module or a diagnostic, and the diagnostics point into the text. That the combinators of chumsky terminate, do not panic and report for their places is trusted (units/p_parse.vx).', assumptions=PARA + ['chumsky itself terminates and does not panic when the preconditions of its contracts hold'], rule='damaged spellings of modules: pieces removed, tokens, quotes, escapes and control characters inserted; distinct texts')
prop('C18', 'Blanks, comments and the choice of separator do not change the meaning',
  'Spaces, tabs, comments up to the end of the line, additional blank lines, a semicolon instead of a newline and CRLF instead of LF change nothing about the module a text parses to.',
  ['inputs'], 'every module and spelling with any blanks, comments and separators between its tokens', 'One test contains some comments.',
  [PAR], [('tokenizer padding', PAR), ('pad and separator of erd_module_parser', PAR)], ['parse'], trusted=CHUM, note=PARNOTE % 'the same theorem: blanks, comments, separators and line ends are free in the definition of a spelling', assumptions=PARA, rule='modules spelled with random blanks, comments, blank lines, separators and line ends; distinct, at least one entry')
OUTSIDE = ['the outside of the program is a ghost state threaded through every call that touches it (units/p_cli.vx): arguments, files, standard input, standard output, reports; arguments are Unicode, standard output and standard error accept everything', 'ariadne 0.1.5: contracts (units/p_ariadne.vx) on the place a report is about, its labels and its text; that it panics neither when a label starts after it ends nor for a place outside of the text is an obligation of main']
prop('C19', 'The command line and notebook front ends show exactly the drawing and every diagnostic',
  'Given any text, as a file or on standard input, the program ends normally and writes to standard output exactly the drawing of the module the text parses to, or nothing if it has none; each diagnostic is reported on standard error, in order, with the name of the file and its line and column. A file that cannot be read makes it fail with nothing on standard output. The notebook display prints exactly that drawing between its markers.',
  ['inputs', 'fault_sequences'], 'every text, valid or not, the empty one included, from a file or standard input; files that are missing or no text', 'No test runs the program or the notebook display.',
  ['src/main.rs', 'src/evcxr.rs'], [('main', 'src/main.rs'), ('draw_erd and SVGOutput', 'src/evcxr.rs')], ['cli', 'parse', 'render', 'whole'] + LAYOUT, trusted=SVG + CHUM + [ASTAR, MAP] + OUTSIDE,
  note='Proof for all texts, up to the height bound of the drawing: main is verified, effects included, against the contracts of the parser, layout and renderer: which text is read, that each diagnostic is reported once, in order and at its place, that no step panics, and what standard output gets. Trusts the contracts of the parser and report libraries and of the outside.',
  assumptions=LAYA + NETA + PARA + ['main draws the module that parse returned for the text, seen as an existential over results of parse that satisfy its contract'], rule='texts as in C16 to C18, spelled and damaged, the empty one included; each evaluation is one run of a program', n=4000, secs=12, fronts=True)

prop('C20', 'A module is displayed as source text that spells it',
  'Displaying a module writes "erd", its name if it has one, and between braces one line per entry, in order: a definition with its name, fields, type and key keywords, a relation with its two ends. Nothing is left out or changed, and success is reported only if all of it was written. If all names are identifiers and no keywords, the text parses without errors to the same module again.',
  ['inputs', 'fault_sequences'], 'every module, with any names; the round trip for every module whose names need no quotes; writers that fail at any place', 'Two tests display one small module each.',
  [ERD, PAR], [('Display for Module, EntityDefinition, EntityField, EntityRelation', ERD), ('parse', PAR)], ['print', 'parse'], trusted=CHUM + ['std::fmt: a formatter appends what is written to it or fails; write! writes its pieces in order and stops at the first failure (units/p_fmt.vx)', 'derive_more Display writes the format of its attribute, or the only field, or the name of the variant'],
  note='Proof for all modules: every Display implementation of erd.rs is verified against the text of its part, loops included; a lemma shows that this text spells the module (the relation of C16), and the contract of parse closes the round trip. Trusts the contracts of std::fmt and of the parser combinators.',
  assumptions=PARA, rule='modules with plain and odd names; distinct, at least one entry; each displayed, also into writers that run full, and parsed back if its names are plain')
