SPLIT = ('values (numbers, characters, raw bytes) are fully symbolic; string, blob and list lengths are the listed concrete ones')
prop('P01', 'Fixed-size stream values come back bit-identical, little endian',
     'Every number, vector, matrix and string written through a stream is read back bit-identical and occupies exactly its '
     'documented number of bytes. Numbers are laid out little endian, matrices row by row, and a line or terminated string is '
     'the text followed by exactly one LF or NUL.',
     [INPUTS], 'every bit pattern of every value (including NaNs), every string length up to 4 GiB, every stream that stores what it is given',
     'The tests read a few constants; a wrong byte order, sign extension or swapped matrix element shows only for particular bit patterns.',
     ['src/Stream.cc', 'include/zenkit/Stream.hh'],
     [('value codecs', 'src/Stream.cc Read::read_*, Write::write_*')],
     note='proved for all values against the abstract stream contract (storage supplied by the harness)')
prop('P02', 'Memory streams stay in their buffer and keep an exact position',
     'A stream over memory delivers exactly the bytes at its position, never touches memory outside the buffer or the caller\'s '
     'range, returns the number of bytes available, and advances by that number. Seeking moves to the requested position if it '
     'lies inside the buffer and otherwise not at all (growing streams may be positioned past the end and zero-fill the gap); '
     'end-of-file is reported exactly at the end, and a value cut off by the end is zero-extended.',
     [INPUTS, HIST], 'every buffer size up to 2^40, every position, every length and offset; one step from an arbitrary reachable position, hence every history',
     'A test tries a handful of sizes; an off-by-one at the end of the buffer or an overflow in the position arithmetic needs particular sizes.',
     ['src/Stream.cc'],
     [('read streams', 'src/Stream.cc ReadMemory, ReadVector'), ('write streams', 'src/Stream.cc WriteStatic, WriteDynamic')],
     note='proved with symbolic buffer sizes, positions and lengths (no bound on contents); sizes below 2^40, seek offsets within 2^60',
     assumptions=['seek offsets lie within +-2^60; growing streams are not sought to a negative position'])
prop('P03', 'A line ends where it should and reading stops exactly behind it',
     'Reading a line returns the characters up to, and not including, the first CR, LF, NUL or end of data; the stream then stands right '
     'behind the terminator, or, if whitespace is to be skipped, on the first character behind the terminator that is not one of the '
     'ignored ones, and nothing is skipped behind a NUL. Names are compared case-insensitively exactly in the ASCII letters.',
     [INPUTS], 'every content of text up to the stated length, every ignore set used, every line written by the library',
     'Tests contain only well-formed lines; a NUL inside, a line cut off by the end, or whitespace at the end of the data is not sampled.',
     ['src/Stream.cc', 'src/Misc.cc'],
     [('lines', 'src/Stream.cc Read::read_line, Read::read_line_then_ignore, Write::write_line'), ('names', 'src/Misc.cc iequals, icompare')],
     note='proof over all contents; text lengths up to 7 (bounded), written lines up to 5000 characters, skipped whitespace 300 characters',
     bounds=['all texts of up to 6 characters (7 in the thorough run); written lines of 0-7, 255, 256, 1024 and 5000 characters'])
prop('P04', 'Chunked files: sizes are exact, readers land on the next chunk',
     'A written chunk carries its identifier and exactly the size of its payload. Reading chunks hands every chunk to the handler with the '
     'stream at its payload and afterwards stands on the next chunk no matter how much the handler consumed; unknown chunks are skipped and '
     'reading stops at the end chunk or the end of data. Dates, bounding boxes and oriented boxes (with nested boxes) keep every value, and the '
     'axis-aligned box computed for an oriented box encloses its corners tightly.',
     [INPUTS, HIST], 'every payload size, every identifier, every amount consumed by the handler, all box and date values',
     'Sample files have one shape; a handler that reads too much or too little or a chunk of unusual size never occurs in them.',
     ['include/zenkit/Stream.hh', 'src/Boxes.cc', 'src/Date.cc'],
     [('chunks', 'include/zenkit/Stream.hh proto::read_chunked, proto::write_chunk'), ('boxes', 'src/Boxes.cc'), ('dates', 'src/Date.cc')],
     note='proof; payload sizes and consumption are symbolic against the abstract stream contract; nesting of boxes is bounded to depth 2 and 300 children',
     bounds=['boxes nested two deep, up to 300 children'], assumptions=['enclosing box: axes are the coordinate axes in the stated harness orientations, coordinates are finite'])
for pid, name, f, extra in [('P05', 'Binary', 'Binary', ''), ('P06', 'BinSafe', 'Binsafe', ' Reading an entry as another type is refused with an error.'),
                            ('P07', 'ASCII', 'Ascii', ' Reading an entry as another type is refused with an error.')]:
    prop(pid, '%s archives return every typed entry, object frame and header' % name,
         'In a %s archive every typed entry (string, int, float, byte, word, enum, bool, color, vectors, bounding box, matrix, raw) '
         'reads back with the value written, in order%s, and object name, class, version, index, nesting and the save-game flag '
         'come back. Asking for an object begin or end that is not there says no and does not move; skipping an object lands right '
         'behind it whatever it contains.%s' % (name, ', floats rounded to six decimals' if name == 'ASCII' else '', extra),
         [INPUTS], 'every value of every entry type, all object versions, save-game or not; strings and raw blocks of the listed lengths',
         'Each entry kind has value ranges (signs, digits, hex digits below 16, length bytes) that the sample archives in the tests never contain.',
         ['src/archive/Archive%s.cc' % f, 'src/Archive.cc'],
         [('entries', 'src/archive/Archive%s.cc read_*/write_*' % f), ('frames', 'read_object_begin/read_object_end/write_object_begin/write_object_end'),
          ('skipping', 'src/Archive.cc ReadArchive::skip_object')],
         note='proof over all entry values; string and raw lengths are the listed concrete ones (bounded), contents symbolic',
         bounds=[SPLIT, 'string lengths 0,2,3,5,6,20,255,256,%s' % ('1025' if name == 'ASCII' else '1000')],
         assumptions=['strings contain no NUL, CR or LF'] + (['enum values fit the byte the Binary format stores'] if name == 'Binary' else [])
         + (['floats are finite; decimal text of numbers is an opaque token whose parse is the inverse of its print (zkv/text.py)'] if name == 'ASCII' else []),
         weights={'entries_long': 9, 'entries_short': 8, 'entries_empty': 7, 'skip_current': 6, 'skip_next': 5})
prop('P08', 'Object graphs keep identity, sharing, cycles and tree shape',
     'Saving objects and loading them back yields an isomorphic graph: an object written twice is one object again, distinct objects stay '
     'distinct, missing objects stay missing and cycles close. Objects of unknown class load as missing without disturbing what follows, and '
     'the tree of world objects keeps parents, children and order. Every object class is stored under the name it is created from, with the version number of its game.',
     [INPUTS, HIST], 'every sequence of stores of new, repeated and missing objects and every tree shape of the stated size, all formats, all classes, both games',
     'The order in which shared objects appear and the shapes of trees multiply; tests load two or three fixed files.',
     ['src/Archive.cc', 'src/Object.cc', 'src/world/VobTree.cc', 'src/vobs/VirtualObject.cc'],
     [('references', 'src/Archive.cc ReadArchive::read_object, WriteArchive::write_object'), ('tree', 'src/world/VobTree.cc'), ('classes', 'src/Archive.cc object construction, get_class_name')],
     note='proof over field values; graph shapes enumerated completely up to the stated size (bounded) plus wide graphs of 300 objects',
     bounds=[SPLIT, 'store sequences of up to 3 (thorough 4) objects, trees of up to 4 (thorough 5) nodes, 300 objects in a row, 260 children'],
     assumptions=['VOb trees are trees without missing children; object and class names are not empty'])
prop('P09', 'Saving and loading a world object restores every stored field',
     'Every world object class, saved to an archive for Gothic 1 or Gothic 2, as save-game or not, and loaded again, has the same '
     'class and the same value in every field its format stores, including visuals, AI state, rigid-body state, contained items and '
     'key frames. Loading consumes exactly the object.',
     [INPUTS, CONF], 'every value of every field of the 44 classes x 2 games x save-game or not, all combinations of optional parts of the base object',
     'The tests only load sample files; nothing saves the objects, and many fields have one value in the samples.',
     ['src/vobs/VirtualObject.cc', 'src/vobs/Misc.cc', 'src/vobs/Trigger.cc', 'src/vobs/Camera.cc', 'src/vobs/Light.cc', 'src/vobs/MovableObject.cc', 'src/vobs/Sound.cc', 'src/vobs/Zone.cc'],
     [('object codecs', 'src/vobs/*.cc load/save'), ('class dispatch', 'src/Archive.cc ReadArchive::read_object')],
     note='proof over all field values in BinSafe archives (which tag every entry with its type); lists have two elements, strings three characters',
     bounds=[SPLIT, 'strings of 3 characters, lists of 2 elements'],
     assumptions=['packed objects: visual bias < 32, animation mode and sprite alignment < 3', 'physics enabled exactly if a rigid body is attached'])
prop('P10', 'Worlds, way-nets, cutscenes, materials and save state survive saving',
     'Materials, way-nets, cutscene libraries, cutscene and dialogue state, sky state, save-game metadata and save-game script state, and a whole '
     'world, saved for either game and loaded again, have the same value in every field their format stores. Way edges connect the same points, '
     'free points stay free, a cutscene is found by exactly its own name, and loading consumes exactly what was saved.',
     [INPUTS, CONF], 'every value of every field, both games, save-game or not, way-net shapes of the stated size',
     'The tests only load sample files and compare a few fields.',
     ['src/Material.cc', 'src/World.cc', 'src/world/WayNet.cc', 'src/CutsceneLibrary.cc', 'src/SaveGame.cc', 'src/Misc.cc'],
     [('materials', 'src/Material.cc'), ('world', 'src/World.cc World::load/save'), ('way-net', 'src/world/WayNet.cc'), ('cutscenes', 'src/CutsceneLibrary.cc'), ('save state', 'src/SaveGame.cc')],
     note='proof over all field values; list sizes and string lengths are concrete (bounded): 0-2 elements, and 260 or 600 in the *_many harnesses',
     bounds=[SPLIT, 'strings of 3 characters, lists of 0-2 elements, 260 entries in the large harnesses, way-nets of up to 3 points and 2 edges and one of 140 points'],
     assumptions=['way edges connect two different points', 'enum values fit the byte the Binary format stores'])
prop('P11', 'Meshes, models, hierarchies, BSP trees and fonts survive saving',
     'A mesh, multi-resolution mesh, soft-skin mesh, model mesh, model hierarchy, BSP tree or font that is saved and loaded again has the same '
     'value in every field its format stores, and the reader stands right behind it. The triangles derived from a world mesh are the fans of exactly '
     'those polygons that belong to a leaf and are neither portals, ghost occluders nor outdoor polygons.',
     [INPUTS, CONF], 'every value of every field, both games, all listed element counts including 0 and counts whose bytes look like text',
     'The tests load sample files and never save these resources.',
     ['src/Mesh.cc', 'src/MultiResolutionMesh.cc', 'src/SoftSkinMesh.cc', 'src/ModelMesh.cc', 'src/ModelHierarchy.cc', 'src/world/BspTree.cc', 'src/Font.cc'],
     [('meshes', 'src/Mesh.cc, src/MultiResolutionMesh.cc, src/SoftSkinMesh.cc, src/ModelMesh.cc'), ('triangles', 'src/Mesh.cc Mesh::triangulate'), ('bsp', 'src/world/BspTree.cc'), ('fonts', 'src/Font.cc')],
     note='proof over all field values; element counts are the listed concrete ones (bounded)',
     bounds=[SPLIT, 'element counts 0-3 and 10, 13, 40, 70, 130, 255, 256, 260 in the large harnesses; all BSP trees of the stated size'],
     assumptions=['font names are not empty and do not start with a blank', 'BSP nodes are listed in the order of a walk from the root', 'one weight list per position'])

prop('P12', 'Animations, morph meshes and models load what their files store',
     'Loading an animation, morph mesh or model file laid out as documented yields exactly the stored values: every sample position '
     'scaled and shifted as the header says, every rotation completed (or, if too long, scaled) to unit length, every event, node index, name and frame. '
     'Sections that are unknown are skipped without affecting the others.',
     [INPUTS], 'every stored value, with and without foreign sections in between, all listed element counts',
     'The tests load two sample files; a wrong scale, an index width or a count whose bytes look like text shows only for particular contents.',
     ['src/ModelAnimation.cc', 'src/MorphMesh.cc', 'src/Model.cc'],
     [('animations', 'src/ModelAnimation.cc ModelAnimation::load, SamplePosition and rotation decoding'), ('morph meshes', 'src/MorphMesh.cc MorphMesh::load'), ('models', 'src/Model.cc Model::load')],
     note='proof over all stored values; element counts are the listed concrete ones (bounded)',
     bounds=[SPLIT, 'element counts 0-3 and 40, 130, 260 in the large harnesses'],
     assumptions=['floating-point arithmetic on samples is compared operation by operation (uninterpreted), not numerically'])
prop('P13', 'Textures keep their pixels through loading, saving and conversion',
     'A texture file is loaded with all its mipmap levels, palette and dimensions and saved back byte for byte. Decoding a level to 32-bit color and '
     'building a texture in another uncompressed format move every channel of every pixel to its place, with full intensity staying full '
     'intensity, and formats that can not be converted are refused.',
     [INPUTS, CONF], 'every pixel value, every format and listed size including levels below one block or pixel',
     'The tests compare one pixel of a few files; swapped channels, a wrong scale or a level addressed wrongly show only for particular formats and sizes.',
     ['src/Texture.cc', 'include/zenkit/Texture.hh'],
     [('file', 'src/Texture.cc Texture::load, Texture::save'), ('decoding', 'src/Texture.cc Texture::as_rgba8'), ('building', 'src/Texture.cc TextureBuilder')],
     note='proof over all pixel values; texture sizes are the listed concrete ones (bounded)',
     bounds=[SPLIT, 'sides 1 to 64 and 2048x1, 1 to 4 and 12 levels'],
     assumptions=['the block compression library is replaced by its contract: it reads and writes exactly the blocks of one level', 'sides are powers of two'])
prop('P14', 'Paths and names resolve to the right node of the virtual file system',
     'Looking up, creating and removing nodes by name or path treats names as equal exactly if they differ only in the case of ASCII letters and in '
     'trailing whitespace, ignores empty path components, and reaches every existing node and no other. Creating a node replaces the one of the same name, '
     'creating directories adds exactly the missing ones, removing takes away exactly the addressed subtree, and a path leading through a file reaches nothing.',
     [INPUTS, HIST], 'every name and path of the stated length over all characters, every short history of operations',
     'The tests look up a dozen names in one archive; mixed case, trailing blanks, bytes above 127, slashes or files inside paths are hardly sampled.',
     ['src/Vfs.cc', 'include/zenkit/Vfs.hh', 'src/Misc.cc'],
     [('nodes', 'src/Vfs.cc VfsNode::child, create, remove'), ('paths', 'src/Vfs.cc Vfs::resolve, find, mkdir, remove'), ('order', 'src/Misc.cc icompare, iequals')],
     note='proof over all characters; name lengths 1-2, free path lengths up to 3 behind a fixed prefix, histories of up to 4 operations (bounded)',
     bounds=[SPLIT, 'up to 23 siblings'])
prop('P15', 'Mounting merges trees and settles conflicts by the chosen rule',
     'Mounting a node adds everything it holds, merges directories of the same name, and where a file is involved keeps or replaces the existing node exactly as the '
     'chosen rule says (never, always, only if the existing one is newer, only if it is older), each conflict on its own. Mounting below something '
     'that is missing or not a directory is refused and changes nothing, and file contents handed over live until their last user is gone.',
     [INPUTS, HIST], 'every pair of time stamps, every rule, every combination of file, directory and nothing in the listed tree shapes',
     'The tests never mount over existing nodes except with the default rule.',
     ['src/Vfs.cc', 'include/zenkit/Vfs.hh'],
     [('mounting', 'src/Vfs.cc Vfs::mount'), ('contents', 'src/Vfs.cc VfsFileDescriptor, VfsNode::open_read')],
     note='proof over all time stamps and names; tree shapes are the listed ones (bounded)', bounds=[SPLIT])
prop('P16', 'Disks store and restore a file system, and damaged disks do no harm',
     'A file system saved as a disk and mounted again has the same files with the same contents in the same directories (directories without any '
     'file are left out) and carries the time it was saved with, to two seconds and in every time zone. Any disk laid out as documented mounts accordingly, with conflicts '
     'settled by the chosen rule. Mounting a damaged disk always ends, either refused or with nothing reaching outside the disk.',
     [INPUTS, CONF, FAULT], 'every content, name and time, every listed tree shape, every value of the damaged fields',
     'The tests mount one disk and never save; damaged catalogs, empty directories and other time zones are not sampled.',
     ['src/Vfs.cc', 'src/Stream.cc'],
     [('saving', 'src/Vfs.cc Vfs::save_internal'), ('mounting', 'src/Vfs.cc Vfs::mount_disk'), ('time', 'src/Vfs.cc vfs_unix_to_dos_time, vfs_dos_to_unix_time')],
     note='proof over all names, contents and times; tree shapes and damaged catalogs of the listed sizes (bounded)',
     bounds=[SPLIT, 'catalogs of up to 21 and of 271 entries, files up to 3 and of 70000 bytes, up to 12 directories deep; damaged catalogs of 1-2 entries with 8 directory offsets and 12 catalog offsets'],
     assumptions=['names of at most 64 characters', 'times from 1980 to 2107', 'gmtime and timegm are inverse to each other', 'compressed disks are off in this build'])
prop('P17', 'Compiled scripts load every symbol, value and instruction as stored',
     'Loading a compiled script yields every symbol with exactly its stored name, type, flags, element count, source position, parent and initial values '
     '(escape sequences in text resolved), and every instruction with its operands. Each symbol is found by its index, by its name in '
     'any case and by its address, parameters, local variables, class members and instances of a class are exactly the ones declared, '
     'and asking for something that does not exist gives nothing.',
     [INPUTS], 'every value of every stored field, every symbol type, every opcode, symbol tables of the listed shapes',
     'The tests load two compiled scripts and look at a handful of symbols; wide counts, unusual parents, last entries or reserved bits are not sampled.',
     ['src/DaedalusScript.cc', 'include/zenkit/DaedalusScript.hh'],
     [('symbols', 'src/DaedalusScript.cc DaedalusSymbol::load, DaedalusScript::load'), ('instructions', 'src/DaedalusScript.cc DaedalusInstruction::decode'), ('lookup', 'src/DaedalusScript.cc find_symbol_by_*, find_parameters_for_function, find_locals_for_function, find_class_members')],
     note='proof over all field values; table shapes, name and text lengths are the listed ones (bounded)',
     bounds=[SPLIT, 'tables of up to 8 symbols and of 270, names and texts of up to 3 free characters (long ones fixed)'],
     assumptions=['hash containers are correct for any hash function (the real one is replaced by the length of the key)', 'at most four stray blanks follow a constant string without its line end'])
prop('P18', 'Script instructions compute the defined result for all operands',
     'Every arithmetic, comparison, bit, logic, jump and compound-assignment instruction of a script takes its operands in the defined order, gives exactly the defined result in '
     'wrapping 32-bit arithmetic (shifts use the low five bits of the count), and continues at the defined place. Division by zero and jumps outside the code are '
     'refused as script errors, and nothing but the result and the addressed variable changes.',
     [INPUTS], 'every pair of 32-bit operands, as literals and as variables, every instruction, every jump target',
     'The tests run no arithmetic on extreme operands; the smallest integer, wide shifts and operand order of each instruction are not sampled.',
     ['src/DaedalusVm.cc'],
     [('execution', 'src/DaedalusVm.cc DaedalusVm::exec'), ('operands', 'src/DaedalusVm.cc push_int, pop_int, jump')],
     note='full proof: all operands, one instruction at a time',
     bounds=[], assumptions=['signed overflow wraps, as the code is compiled', 'hash containers are correct for any hash function'])
prop('P19', 'Script variables are read and written exactly where they live',
     'Reading or writing a script variable, directly or by an instruction, reaches exactly the addressed element of the addressed global or of the member of the instance that was '
     'current when the reference was made, and changes nothing else. An access with the wrong type, an element out of range, a constant as target, no or '
     'the wrong kind of instance, or an unbound member is refused with its own kind of error and changes nothing. Text and references on the stack keep their value until taken, '
     'and a full or empty stack is refused.',
     [INPUTS, CONF], 'every value, every 16-bit element number, every symbol type, every context, every execution flag',
     'The tests touch single elements of a few symbols; element numbers above 255, wrong contexts or many live strings are not sampled.',
     ['src/DaedalusScript.cc', 'src/DaedalusVm.cc', 'include/zenkit/DaedalusScript.hh', 'include/zenkit/DaedalusVm.hh'],
     [('symbols', 'src/DaedalusScript.cc DaedalusSymbol::get_*, set_*'), ('references', 'src/DaedalusVm.cc push_reference, pop_*'), ('binding', 'include/zenkit/DaedalusScript.hh register_member'), ('opaque instances', 'src/DaedalusScript.cc DaedalusOpaqueInstance')],
     note='proof over all values and element numbers; classes and arrays of the listed shapes, texts of 2 free characters (bounded)',
     bounds=[SPLIT, 'arrays of 1-3 and of 300 elements; 9 kinds of globals, 6 kinds of members; up to 40 live strings'],
     assumptions=['hash containers are correct for any hash function', 'members of instance type are not supported by scripts'])
prop('P20', 'Calls in and out of scripts pass arguments, results and errors faithfully',
     'A call hands each argument to its parameter and gives back exactly the result, whether the callee is a script function, a registered external, the default external or an override, '
     'and leaves the stack, the code position and the current instance of the caller as they were. Calls and registrations that do not fit the declaration are refused before anything '
     'runs. An error inside a call reaches the error handler at the failing instruction and ends as the handler decides, with the machine usable afterwards.',
     [INPUTS, HIST, FAULT], 'every argument value, every listed signature, every failure point and handler decision, recursion with saved local variables',
     'The tests call a few functions that succeed; failing externals, unbalanced functions, recursion and refused calls are not sampled.',
     ['src/DaedalusVm.cc', 'include/zenkit/DaedalusVm.hh'],
     [('calls', 'src/DaedalusVm.cc push_call, pop_call, unwind_calls, unsafe_call'), ('host interface', 'include/zenkit/DaedalusVm.hh call_function, register_external, override_function'), ('instances', 'include/zenkit/DaedalusVm.hh init_instance, allocate_instance'), ('local variables', 'src/DaedalusVm.cc push_local_variables, pop_local_variables')],
     note='proof over all argument values; signatures and call histories are the listed ones (bounded)',
     bounds=[SPLIT, 'up to 7 parameters, call depth up to 4, stacks of 0-4 and of 2047-2048 entries'],
     assumptions=['hash containers are correct for any hash function', 'text handed to an external is used before the next text is pushed'])
prop('P21', 'Model scripts load as written, as source and compiled',
     'Loading a model script, source or compiled, yields every mesh, animation, alias, blend, combination, tag and event with exactly the values written, in order, and each '
     'event with its own animation. In source, the case of words, spacing, comments, parentheses and missing closing quotes make no difference, blocks end where they end, and omitted parts get their '
     'defaults. A script that is cut off or malformed ends loading with a parser error or with the entries so far, never with a hang or crash.',
     [INPUTS, FAULT], 'every value and name of the stated length, every listed layout and combination of options, every cut of a script with all kinds of entries, every short continuation',
     'The tests load one script of each form; files without a line end, empty lists, unusual layouts or events without an animation are not sampled.',
     ['src/ModelScript.cc', 'src/ModelScriptDsl.cc', 'src/ModelScriptDsl.hh'],
     [('source', 'src/ModelScriptDsl.cc MdsTokenizer::next, MdsParser::parse_*'), ('compiled', 'src/ModelScript.cc parse_binary_script'), ('tags', 'src/ModelScript.cc make_event_tag, animation_flags_from_string')],
     note='proof over all characters and numbers; names of 2-3 characters, numbers of 2 digits, the listed layouts (bounded)',
     bounds=[SPLIT, 'names of 2, 16, 40 and 270 characters; free texts of 2 characters (3 in the thorough run) behind three prefixes, all cuts of a script of 350 characters'],
     assumptions=['a quoted name does not end in a closing parenthesis', 'decimal fractions are converted by the C library (uninterpreted)'])
prop('P22', 'Textures exported as DDS describe and contain their pixels',
     'A texture of any format exported as DDS has a header with its dimensions, number of levels, row or block size and pixel layout, followed by the palette, if any, and all levels, '
     'largest first, byte for byte. Every pixel read by the masks of the header has the color the library itself decodes it to.',
     [INPUTS], 'every pixel and palette value, every texture format, the listed sizes and numbers of levels',
     'No test exports a texture.',
     ['src/addon/texcvt.cc', 'src/Texture.cc'],
     [('header', 'src/addon/texcvt.cc write_dds_header'), ('contents', 'src/addon/texcvt.cc write_dds_palette, write_dds_data, to_dds')],
     note='proof over all pixel and palette values; sizes and level counts are the listed ones (bounded)',
     bounds=[SPLIT, 'sides 1 to 8, 1 to 4 levels'],
     assumptions=['sides are powers of two', 'indexed DDS files hold their palette as red, green, blue, alpha'])
prop('P23', 'Known script classes are bound member by member to their fields',
     'After registering the known script classes, writing a member through the script writes exactly the field of that name of the instance, for every member of every class, '
     'whether or not the script declares the members of later games. Classes a script does not declare are left out without error. The choices of a dialogue are kept newest first and removed by position.',
     [INPUTS, CONF], 'every member of all 21 classes, every value, first and last element, with and without the members of later games',
     'The tests bind the classes of one script and look at none of the 710 members.',
     ['src/addon/daedalus.cc', 'include/zenkit/addon/daedalus.hh'],
     [('binding', 'src/addon/daedalus.cc register_all_script_classes, I*::register_'), ('choices', 'src/addon/daedalus.cc IInfo::add_choice, IInfo::remove_choice')],
     note='proof over all values; all members of all classes; first and last element of arrays',
     bounds=['first and last element of every array', 'up to 4 choices'],
     assumptions=['hash containers are correct for any hash function', 'the table of members and fields (harness/classes.inc) is the documented one'])
prop('P24', 'Streams over files and C++ streams behave like streams over memory',
     'Reading from a C file, a C++ stream or a mapped file returns the bytes, counts, positions, lines and end of data that reading the same bytes from memory would, '
     'also after reads which hit the end, and writing to C files and C++ streams leaves exactly the bytes written at the positions sought. '
     'A path which can not be mapped is refused, an empty file is mapped as empty, and no descriptor or mapping outlives its stream.',
     [INPUTS, HIST], 'every content, every sequence of the listed number of operations',
     'The tests read whole files once; what happens at and after the end of the data is not tested.',
     ['src/Stream.cc', 'src/MmapPosix.cc', 'include/zenkit/Mmap.hh'],
     [('C files', 'src/Stream.cc ReadFile, WriteFile'), ('C++ streams', 'src/Stream.cc ReadStream, WriteStream'), ('mapped files', 'src/MmapPosix.cc Mmap, src/Stream.cc ReadMmap')],
     note='proof over all contents and operations; contents up to 5 bytes and up to 3 operations are enumerated (bounded)',
     bounds=['positions up to 2^41 in C files, contents of 70000 bytes with single operations, contents up to 3 bytes (5 for values and lines), 2 reads or seeks, 3 writes or seeks'],
     assumptions=['the C library (fread, fseek, fgetc, ...), mmap and the C++ stream classes are replaced by contracts of their documented behaviour', 'seeks stay within the data'])
