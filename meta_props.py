HOOKS = dict(guard='VERIF_SPEC', enable='-DVERIF_SPEC -include /verif/harness/vf_spec.hh (set by engine/build.py for the '
             'verifier compile only; the ordinary build never defines it)', source_commits=[])
BASE_NOTE = '''Every obligation is discharged for all inputs from the IR of the real functions, extracted on each run.
Trusted: clang/LLVM, the VC generator in /verif/engine, z3/cvc5; allocation does not fail. '''

# ------------------------------------------------------------------ contents
prop('C01', 'Brush and leaf contents survive the trip to and from the native format',
     '''Every native leaf-contents value a game defines is accepted on reading, means the documented content (empty, solid,
     the liquids, sky; for Quake II the published bit of each content flag), and is written back as the same value; any
     other value is refused for Quake, Hexen II and Half-Life. When writing, the leaf type is the strongest visible
     content, and a content the format cannot express is refused rather than changed. For Quake II every 32-bit value
     survives unchanged and everything the format can hold is written.''',
     ['inputs'], 'all 32-bit native values and all 64-bit internal content flag sets, for each of the four games',
     'tests try a few named contents; the flag space has 2^64 combinations and each game has its own table',
     ['common/bspfile.cc', 'include/common/bspfile.hh', 'include/common/bspfile_common.hh'],
     [('create_contents_from_native / contents_to_native', 'common/bspfile.cc: gamedef_q1_like_t, gamedef_q2_t')],
     BASE_NOTE + 'Complete over the whole value space; nothing bounded.')
prop('C02', 'A portal is see-through exactly when nothing opaque changes across it',
     '''Whether visibility passes a portal does not depend on the order of its two sides, and never holds when either
     side is solid. Otherwise it passes exactly when the two sides have the same visible contents, or differ only in
     contents that are see-through (detail brushes; for Quake II translucent contents; for the other games liquids when
     transparent water is enabled). A leaf on its own counts as opaque exactly when its strongest visible content is
     solid, sky, a detail wall or a non-transparent liquid (Quake II: any visible content that is not translucent).''',
     ['inputs', 'configurations'], 'all pairs of 64-bit content flag sets, transparent water on or off, all four games',
     'a wrong answer for one combination silently removes or adds visibility; tests check a handful of pairs',
     ['common/bspfile.cc'], [('portal_can_see_through, contents_are_opaque', 'common/bspfile.cc')],
     BASE_NOTE + 'Complete over all pairs of flag sets.')
prop('C03', 'Faces appear exactly where the visible content changes',
     '''The content shown at the boundary of two regions is the single strongest visible content present on only one side
     (on either side when same-type clipping is disabled), none between solid and sky for the Quake-like games, and it
     does not depend on the order of the sides. A brush gets an outside face there exactly when it holds that content,
     and an inside face according to its explicit mirror setting, else the game's default. Two equal contents clip each
     other exactly when same-type clipping was not disabled, and setting the mirror or clipping option reads back as set
     and changes nothing else.''',
     ['inputs'], 'all pairs of content flag sets and all brush flag sets, all four games',
     'tests build a few brush pairs; every pair of contents can meet in a map',
     ['common/bspfile.cc'], [('portal_visible_contents, portal_generates_face, will_clip_same_type', 'common/bspfile.cc')],
     BASE_NOTE + 'Complete over all flag sets.')
prop('C04', 'Combining contents loses nothing and detail never seals a map',
     '''Combining the contents of overlapping brushes does not depend on their order: structural solid wins over everything,
     then sky (Quake-like games), and otherwise exactly the union results; a cluster is solid only when all its leafs
     are, and keeps every other content. Only structural solid and sky seal a map, each detail kind is recognised as
     exactly itself, and setting or clearing detail touches only that flag. Every content set the compiler can build
     from native and detail contents can be exported: detail walls and fences become solid leafs (in Quake-like games),
     solid wipes out other contents (in Quake II leafs), liquids stay liquids.''',
     ['inputs'], 'all pairs and triples of content flag sets, all four games',
     'each leaf of each map combines its own set of brushes; tests cover a few combinations',
     ['common/bspfile.cc'],
     [('combine_contents, cluster_contents, contents_seals_map, create_detail_*, contents_remap_for_export', 'common/bspfile.cc')],
     BASE_NOTE + 'Complete over all flag sets.')

# ------------------------------------------------------------------ BSP records
prop('B01', 'Converting a BSP record keeps every value or is refused',
     '''Converting a node, clip node, face, leaf, texinfo, model or brush side between the generic form and any on-disk
     format (Quake, 2PSB, BSP2, Half-Life, Hexen II, Quake II, Qbism) keeps every field that the format has, in both
     directions. It is refused exactly when some value does not fit the format. Bounding boxes stored as 16-bit integers
     are rounded outwards, by less than one unit.''',
     ['inputs'], 'all field values of every record type and format',
     'limits are only hit by huge maps; tests convert a few small maps',
     ['common/bspfile_q1.cc', 'common/bspfile_q2.cc', 'common/bspfile_generic.cc', 'include/common/numeric_cast.hh'],
     [('converting constructors and conversion operators of each record', 'common/bspfile_q1.cc, common/bspfile_q2.cc')],
     BASE_NOTE + 'Bounds are assumed not to be NaN.')
prop('B02', 'Every BSP record is written byte for byte as the format defines',
     '''Writing any record of a BSP file or of a BSPX lump produces exactly the bytes its format defines (field order,
     width, endianness), and reading those bytes gives back an equal record. This holds for both byte orders of the
     stream and for every field value.''',
     ['inputs'], 'all field values of every record type, little and big endian streams',
     'tests load and save a few files and never look at every field of every format',
     ['common/bspfile_q1.cc', 'common/bspfile_q2.cc', 'common/bspfile_generic.cc', 'common/bspfile_common.cc', 'common/bspxfile.cc',
      'include/common/cmdlib.hh'],
     [('stream_write / stream_read of each record', 'common/bspfile_*.cc, common/bspxfile.cc')],
     BASE_NOTE + '''Variable-size records (Quake II visibility header, light grid, decoupled lightmap arrays) are bounded in
     element count and labelled so in the evidence.''')

# ------------------------------------------------------------------ geometry, numbers, streams
prop('G01', 'Bounding boxes form a lattice',
     '''A point is inside a box exactly when it lies between the bounds on every axis, a box contains another exactly when
     it contains both its corners, and a box built from points contains each of them. The union of two boxes, and
     expanding a box by a point, gives the smallest box containing both. Two boxes intersect exactly when they share a
     point, the intersection holds exactly the common points, and the disjointness tests agree with it and do not depend
     on the order of the boxes.''',
     ['inputs'], 'all boxes with finite coordinates (single and double precision, two and three axes)',
     'every spatial query relies on it for arbitrary coordinates; tests use a few boxes',
     ['include/common/aabb.hh', 'include/common/qvec.hh'], [('aabb operators', 'include/common/aabb.hh')],
     BASE_NOTE + 'IEEE floating point semantics, exact.')
prop('N01', 'Narrowing a number keeps its value or is refused',
     '''A checked narrowing between integer types of any width and signedness returns the same value or is refused, and is
     refused exactly when the value does not fit. Narrowing a bounding box to 16-bit integers rounds lower bounds down
     and upper bounds up by less than one unit, or is refused when the rounded value does not fit. Narrowing an array
     treats every element this way, keeps their order, and zero-fills a longer result.''',
     ['inputs'], 'all values of all eight integer types, all non-NaN float and double bounds',
     'the limits matter only at the edges of each type, for 56 type pairs',
     ['include/common/numeric_cast.hh', 'include/common/bspfile.hh', 'include/common/cmdlib.hh'],
     [('numeric_cast, array_cast', 'include/common/numeric_cast.hh'), ('aabb_mins_cast, aabb_maxs_cast', 'include/common/numeric_cast.hh')],
     BASE_NOTE + 'Complete over all integer type pairs.')
prop('M01', 'In-memory streams never leave their buffer',
     '''Reading from an in-memory stream delivers the bytes of the buffer in order, as many as asked for and available,
     touches nothing beyond the buffer and leaves the rest of the destination alone; a read past the end is reported as
     a failure. Writing stores the bytes that fit, changes nothing outside its range, and fails exactly when the data
     does not fit. Seeking succeeds exactly for targets inside the buffer (its end included) and otherwise is refused
     without moving.''',
     ['inputs', 'histories'], 'buffers, positions, lengths and offsets of every size up to 2^31-1 (offsets: all 64-bit values)',
     'whole BSP files are parsed through these streams with offsets taken from the file; tests use well formed files',
     ['include/common/cmdlib.hh', 'common/cmdlib.cc'], [('membuf, imemstream, omemstream', 'common/cmdlib.cc')],
     BASE_NOTE + 'Unbounded buffer sizes (symbolic length). libstdc++ iostream functions without a header body are given their meaning in harness/vf_ios.hh (trusted).')

# ------------------------------------------------------------------ visibility
LOOPS = """Unbounded: the loops are proved by invariants and variants written in the source (guard VERIF_SPEC), for an arbitrary
row, index and offset. """
prop('B03', 'Lumps of any length are written and read back record for record',
     '''Writing a lump puts the records one after another into the file, each in its place, followed by zero padding up to a multiple of four; the
     directory says where it starts and how many bytes it has, and no other byte of the file and no other entry of the directory changes. Reading
     gives exactly the records at that place, in order, and a lump that is cut short, lies outside of the file or is no
     whole number of records is refused. Every version of the format has its own record size for every lump, and every lump of
     it is written once from, and read once into, the data it holds.''',
     ['inputs'], 'all lump lengths and positions in files of up to 2 GiB, every record type of every BSP version',
     'the tests read and write a few small maps; the place of record n depends on every length before it',
     ['common/bspfile.cc', 'include/common/bspfile_common.hh', 'include/common/cmdlib.hh'],
     [('bspfile_t::write_lump, lump_reader::read', 'common/bspfile.cc'), ('bspfile_t::write_bsp, ReadQ1BSP, ReadQ2BSP', 'common/bspfile.cc')],
     BASE_NOTE + LOOPS + 'The bytes of a single record are taken from the contracts of B02. In the quick tier a selection of record types is checked (each is another instance of the same template), in the thorough tier all. Storage growth of std::vector and std::string in the standard library is assumed correct where it is not executed; the texture and Quake II visibility lumps are covered by M01 and B02.')
prop('V01', 'Compressed visibility rows decompress to the same row',
     '''Decompressing the run-length coded form of a visibility row gives back the row, for every row and every length, also
     when other rows follow it. The coded form is at most twice as long as the row. Decompressing arbitrary bytes ends, never
     reads past the input and never writes past the output.''',
     ['inputs'], 'all rows up to 2^28 bytes; all byte strings as compressed input',
     'long zero runs, runs at the end of a row and truncated data occur only on particular maps',
     ['common/bsputils.cc'], [('CompressRow', 'common/bsputils.cc'), ('DecompressVis', 'common/bsputils.cc')],
     BASE_NOTE + LOOPS)
prop('V02', 'Bit strings saved in a vis state file load back unchanged',
     '''The compressed or plain form in which vis saves a bit string to its state file is never longer than the bit string and
     expands to exactly the same bits, for every number of leafs and every contents. Expanding arbitrary bytes stays inside
     the input and the bit string, or is refused.''',
     ['inputs', 'crash points'], 'all bit strings of up to 2^30 bits; all byte strings as saved form',
     'vis resumes from these after an interruption; a wrong bit silently hides geometry; no test covers it',
     ['vis/state.cc', 'include/vis/leafbits.hh'],
     [('CompressBits, DecompressBits, CopyLeafBits', 'vis/state.cc')],
     BASE_NOTE + LOOPS + 'The file operations around them are not covered.')
prop('V03', 'Sets of leafs behave as sets',
     '''A set of leafs reads back exactly the bits assigned to it, and assigning one bit changes no other. A new, cleared or
     resized set is empty, a filled one holds every bit. A copy holds the same bits and is independent of the original; a
     moved set keeps its bits and leaves the source empty.''',
     ['inputs', 'histories'], 'sets of up to 2^32 bits, every index',
     'all visibility computation rests on it; errors show only for particular sizes and indices',
     ['include/vis/leafbits.hh'], [('leafbits_t', 'include/vis/leafbits.hh')], BASE_NOTE + 'Unbounded sizes.')
prop('V04', 'The hearable set of a leaf is the union of what its visible leafs see',
     '''For every leaf the PHS row that vis appends holds exactly the leafs in its PVS and in the PVS of any leaf in its PVS.
     Its offset points at the appended row, and the PVS offsets and rows are unchanged.''',
     ['inputs'], 'all PVS matrices of up to 2^24 leafs',
     'the number of leafs relative to the word size and the position of the last bits matter; no test covers it',
     ['vis/soundpvs.cc', 'common/bspfile_generic.cc', 'common/bsputils.cc'],
     [('CalcPHS', 'vis/soundpvs.cc'), ('mvis_t offsets', 'common/bspfile_generic.cc')],
     BASE_NOTE + LOOPS + 'DecompressVis and CompressRow are taken by their contracts (V01); growth of std::vector storage is assumed correct.')
prop('V06', 'A cluster sees exactly itself and what its portals see',
     '''When the visibility of a cluster is put together, its row holds exactly the leafs that lie in the cluster itself or in a
     cluster that one of its portals can see (Quake II: the clusters themselves), with the padding empty; a portal that has
     not been finished is refused. The row is compressed and appended once, and the offset of the cluster - and, outside
     Quake II, of exactly the leafs lying in it - is where it was appended. The rows, offsets and leafs of other clusters stay
     as they are.''',
     ['inputs'], 'all cluster and leaf counts up to 2^24, all portal counts, all visibility bits',
     'tests run vis on a few tiny maps, where rows fit into single words',
     ['vis/vis.cc', 'include/vis/leafbits.hh', 'common/bspfile_generic.cc'],
     [('ClusterFlow', 'vis/vis.cc'), ('leafbits_t', 'include/vis/leafbits.hh'), ('mvis_t offsets', 'common/bspfile_generic.cc')],
     BASE_NOTE + LOOPS + 'CompressRow is taken by its contract (V01); growth of std::vector storage is assumed correct; the int product of cluster number and row size is assumed to fit (rows of more than 2 GiB in total are outside).')
prop('V07', 'Every portal is handed out once and only ruled-out leafs are passed on',
     '''A thread that asks for work gets a waiting portal with the fewest candidate leafs, marked as taken before the lock is given back, and is sent away only
     when none is waiting; nothing else changes. When a portal is finished, exactly the leafs that some finished portal of the
     leaf it leads into has ruled out, and that no other portal of that leaf still sees, are passed on, all with the lock held. Passing
     one on takes the finished leaf out of the candidates of the waiting portals there, keeps their counts right and
     touches nothing else.''',
     ['schedules', 'inputs'], 'all states of all portals at the moment a thread gets the lock, hence all schedules; up to 2^24 portals and leafs',
     'the order in which threads finish decides what is reused; tests run one schedule on tiny maps',
     ['vis/vis.cc', 'include/vis/leafbits.hh'],
     [('GetNextPortal, UpdateMightsee, PortalCompleted', 'vis/vis.cc')],
     BASE_NOTE + LOOPS + 'PortalCompleted is checked against the contract of UpdateMightsee, which is proved on its own. Assumed: mutual exclusion by std::mutex, no portal is listed twice for a leaf or leads into its own leaf, counts are not negative, the padding of the sets is empty. Reads of candidate sets by threads at work (which the code does not lock) are outside.')
prop('S02', 'Tokens are exactly what the text holds, and reading them stays inside it',
     '''Reading a token from text of any length, terminated or not, never looks outside the text, always ends, moves forward
     only and skips nothing but white space and comments (`//` or `;` to the end of the line; only blanks when the token has to be on the same
     line). The token is the text between its quotes with only escaped quotes inside, or the run of characters up to the
     next white space; a comment is returned whole when asked for, and looking ahead leaves the parser where it was. No
     token is reported only when nothing but white space and comments is left (of the line, where asked), and only an
     open quote or a token missing from its line is refused.''',
     ['inputs'], 'all texts of up to 2^30 bytes, all starting points, and the flag combinations the tools use',
     'map files, entity lumps and settings come from outside; the tests parse a few well-formed ones, always terminated',
     ['common/parser.cc', 'include/common/parser.hh'],
     [('parser_t::parse_token', 'common/parser.cc')],
     BASE_NOTE + LOOPS + 'Growth of std::string storage is assumed correct. Flag combinations under contract: none, SAMELINE, OPTIONAL, COMMENT with OPTIONAL, PEEK, PEEK with SAMELINE.')
prop('S01', 'The value given by the most authoritative source is the one in effect',
     '''After any history of assignments a setting holds the last value given by the most authoritative source so far
     (default, game, map, command line), moved into the range of the setting, and it knows that source; a less authoritative
     source changes nothing, reset gives back the default, and copying takes over value and source. Worldspawn keys and command line options
     address a setting by any of its names (leading underscores aside, with "no" switching a flag off), values that do not fit
     are reported, unknown options are refused on the command line, and other settings stay as they are. The command line
     is consumed up to the first argument that is no option, and the remaining arguments are handed back in order.''',
     ['inputs', 'histories'], 'all present values, sources, ranges and assigned values of each setting type; names and texts by cases',
     'which of several sources wins depends on the whole history of assignments; the tests set a few options once',
     ['common/settings.cc', 'include/common/settings.hh', 'common/parser.cc'],
     [('setting_base::change_source, setting_value::set_value', 'include/common/settings.hh'),
      ('setting_container::set_setting, find_setting, parse', 'common/settings.cc')],
     BASE_NOTE + 'The step from one state to the next is proved for all states, so histories follow by induction. Strings have given lengths; names, texts and command lines are given by cases (each case proved for all states and sources); map and set trees, strtol and dynamic_cast are taken as written in harness/vf_lib.hh. NaN is excluded. Parsing of floating point texts is outside.')
