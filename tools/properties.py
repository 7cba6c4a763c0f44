S = 'src/'
p('C01', 'Buffers never touch memory outside their own storage',
  'Whatever sequence of operations is applied to the fixed size read and write buffers and to a section of a read buffer, with whatever sizes, pointers to valid data and indices, no access is made outside the storage of the buffer and the data handed in. This includes lengths close to the limits of the integer type.',
  ['inputs', 'histories'], 'all histories of operations with all argument values, for several capacities',
  'Tests call each operation a few times with sizes that fit or just do not fit; wrap-around of a bound computed in 32 bit and histories mixing clear, advance and push are not enumerable.',
  [S + 'WriteBufferFixedSize.h', S + 'ReadBufferFixedSize.h', S + 'ReadBufferSection.h', S + 'ReadBufferSection.cpp'],
  [('bounds checks before every copy', 'WriteBufferFixedSize::push, ReadBufferFixedSize::{peek,pop,advance}, ReadBufferSection::{peek,pop,advance}')],
  AI, NOTE + 'Capacities analysed: 1 to 70000 bytes.',
  state=[('write index', 'number of bytes used', S + 'WriteBufferFixedSize.h'), ('read index', 'position', S + 'ReadBufferFixedSize.h')])
p('C02', 'The write buffer holds exactly the accepted bytes and refuses the rest',
  'After any history, the fixed size write buffer contains exactly the bytes of the accepted pushes since the last clear, in order, and its used, maximum and available sizes agree with that. A push is accepted if and only if all of it fits, and a refused push changes nothing.',
  ['inputs', 'histories', 'fault_sequences'], 'all histories of pushes, clears and queries, all contents, all lengths up to the limit of the type',
  'Tests cover single pushes into an almost full buffer; agreement of content, sizes and return values must hold after every history.',
  [S + 'WriteBufferFixedSize.h', S + 'WriteBufferInterface.h'],
  [('single write index', S + 'WriteBufferFixedSize.h')], AI, NOTE + 'The content is tracked by a ghost model in the harness.',
  observe=['get_size', 'get_max_size', 'get_available_size', 'get_data', 'push'])
p('C03', 'Read buffers and sections deliver every byte once, in order, and stop at the end',
  'Peeking shows the next byte without consuming it, popping returns and consumes it, and advancing consumes exactly the requested number; each reports failure precisely when fewer bytes remain, and position and content never change otherwise. A section of a read buffer shows only its own bytes and keeps the underlying buffer in step.',
  ['inputs', 'histories'], 'all histories of operations, all contents, all advance distances',
  'Tests use a few fixed sequences; a wrap-around of the position or a section drifting from its buffer needs particular sequences and distances.',
  [S + 'ReadBufferFixedSize.h', S + 'ReadBufferSection.h', S + 'ReadBufferSection.cpp', S + 'ReadBufferInterface.h'],
  [('read index', S + 'ReadBufferFixedSize.h'), ('remaining size of the section', S + 'ReadBufferSection.cpp')], AI, NOTE,
  observe=['peek', 'pop', 'advance', 'get_size', 'push'])
p('C04', 'String, bytes and repeated fields never exceed their capacity',
  'No operation on a string, bytes or repeated field, with any argument or index, nor decoding any hostile or truncated data into it, reads or writes outside its storage or makes its length exceed its capacity. Data or elements that do not fit are refused with an error and the direct modification operations then leave the field as it was.',
  ['inputs', 'histories'], 'all states, operations, arguments, wire contents; several capacities including 1, more than 255 and more than 65535',
  'Tests decode well-formed data and a few overlong ones; a length prefix or index chosen by an attacker ranges over 2^32 values combined with every state.',
  [S + 'FieldStringBytes.h', S + 'RepeatedField.h', S + 'RepeatedFieldFixedSize.h'],
  [('capacity checks', 'FieldStringBytes::{set,get,deserialize}, RepeatedFieldFixedSize::{add,set,get,set_data}, RepeatedField::deserialize_*')], AI, NOTE)
p('C05', 'String, bytes and repeated fields behave as bounded sequences',
  'After any history a string, bytes or repeated field holds exactly the sequence that its operations describe: assigning, copying, setting, adding, writing by index (which extends the length with default elements, an index beyond the capacity being taken as the last), reading and clearing. No element dropped by one operation ever becomes visible again after a later one.',
  ['inputs', 'histories'], 'all states, all operations, all arguments',
  'Stale elements show only after a long content was replaced by a shorter one and then extended again by index; tests check single operations.',
  [S + 'FieldStringBytes.h', S + 'RepeatedField.h', S + 'RepeatedFieldFixedSize.h'],
  [('length bookkeeping and clearing of the tail', 'FieldStringBytes, RepeatedFieldFixedSize')], AI, NOTE)
p('C06', 'Every scalar value is written in the protobuf wire encoding',
  'For every scalar type and every value of it, the bytes written are exactly the protobuf encoding of that value (variable length, zigzag or little endian fixed width) and their number is what is reported; field tags combine number and wire type as specified. Signed 32 bit and enumeration values are written as five byte varints when negative.',
  ['inputs'], 'all 2^32 / 2^64 values of every scalar type, all field numbers',
  'Tests sample a handful of values; boundary values of each varint length and sign handling are unbounded for sampling.',
  [S + 'WireFormatter.h', S + 'Fields.h'], [('varint and fixed encoders', S + 'WireFormatter.h')], AI, NOTE)
p('C19', 'A scalar field behaves like the value it holds',
  'A scalar field holds exactly the last value put into it, whichever constructor, assignment or setter was used, gives exactly that value back by get and by conversion, and compares with values and with other fields exactly as the values compare, for all values including negative zero and not-a-number; comparing and copying change neither side.',
  ['inputs'], 'all values and all pairs of values of every scalar type, every way to set, read and compare',
  'Tests compare a few ordinary values with a few of the operators.',
  [S + 'Fields.h'], [('FieldTemplate', S + 'Fields.h')], AI, NOTE)
p('C07', 'Every scalar encoding is decoded to the value it stands for',
  'For every byte sequence, decoding a scalar of any type yields the value the protobuf encoding defines, consumes exactly its bytes and reports success, or reports truncated or overlong data and leaves the destination unchanged. A value of the wrong wire type is refused; encoding followed by decoding gives back every value.',
  ['inputs'], 'all byte sequences of any length, every scalar type',
  'Tests decode a handful of well-formed encodings; non-canonical, overlong and truncated encodings form an unbounded set.',
  [S + 'WireFormatter.h', S + 'Fields.h'], [('varint and fixed decoders', S + 'WireFormatter.h')], AI, NOTE)
G = 'generator/EmbeddedProto/'
TPL = G + 'templates/'
MSGS = 'The messages analysed are those the current generator produces for a corpus of schemas (every field type, plain, optional, repeated, in oneofs, nested, imported, templated; field numbers up to the maximum; more than 64 optional fields); other schemas are covered as far as they are composed of these. '
p('C08', 'A serialized message is exactly the encoding its schema and content define',
  'For every content of a message, serializing writes exactly the protobuf encoding of that content: each plain scalar or enumeration field that differs from zero, each non-empty string, bytes, repeated or nested message field, and each optional field or selected oneof member that is present even when it holds zero or nothing, with its field number and wire type, repeated scalars packed. Fields appear in declaration order with oneof members last; nothing else is written.',
  ['inputs', 'configurations'], 'all contents of the messages of the schema corpus',
  'Tests compare a few dozen recorded byte strings; presence, zero values, lengths and numbers combine without end.',
  [TPL + 'TypeDefMsg.h', TPL + 'FieldBasic_Serialize.h', TPL + 'FieldMsg_Serialize.h', S + 'MessageInterface.h', S + 'RepeatedField.h', S + 'FieldStringBytes.h'],
  [('generated serialize()', TPL + 'TypeDefMsg.h'), ('serialize_with_id', 'Fields.h, FieldStringBytes.h, RepeatedField.h, MessageInterface.cpp')], AI, NOTE + MSGS)
p('C09', 'Parsing stores every field where the schema says and skips what it does not know',
  'Parsing any encoding of a message, into a message with any earlier content, stores every known field with the value encoded (the last one winning, repeated elements appended, nested messages merged, oneof members replacing each other), leaves all other fields alone and consumes everything. Fields with unknown numbers are skipped whatever their content, and a known field with another wire type, a group or field number zero is refused.',
  ['inputs', 'histories'], 'all encodings of arbitrary contents, of single fields and of pairs of fields, all earlier contents, all unknown field numbers and contents',
  'Tests parse recorded messages into fresh objects.',
  [TPL + 'TypeDefMsg.h', TPL + 'TypeOneof.h', TPL + 'FieldBasic_Deserialize.h', S + 'MessageInterface.cpp', S + 'WireFormatter.h'],
  [('generated deserialize() dispatch', TPL + 'TypeDefMsg.h'), ('skip_unknown_field', S + 'MessageInterface.cpp')], AI, NOTE + MSGS)
p('C10', 'A write that fails is never reported as success',
  'Whenever the output buffer refuses any single write during serialization of any message or field, the call reports an error; when it refuses none, the call reports success. Into a buffer of any size, serialization succeeds if and only if the whole encoding fits.',
  ['inputs', 'fault_sequences'], 'every write refused or accepted independently, every buffer size, all contents',
  'A lost error needs the failure of one particular write, such as the last byte of a varint inside a nested message; tests fail a few pushes.',
  [S + 'WireFormatter.h', S + 'Fields.h', S + 'FieldStringBytes.h', S + 'RepeatedField.h', S + 'MessageInterface.cpp', TPL + 'TypeDefMsg.h'],
  [('Error return values', 'every serialize function')], AI, NOTE + MSGS)
p('C11', 'Malformed or truncated input is always reported',
  'Parsing never reports success for a message that ends inside a field at any nesting depth, whose content or elements do not fit the field, that has an overlong tag or length, a known field with another wire type, an unknown wire type or field number zero. A packed field or nested message whose content does not fill its announced length is reported as well.',
  ['inputs', 'fault_sequences'], 'every cut of every encoding, all lengths, all wire types',
  'Tests try a handful of malformed messages.',
  [S + 'MessageInterface.cpp', S + 'RepeatedField.h', S + 'FieldStringBytes.h', S + 'WireFormatter.h', TPL + 'TypeDefMsg.h'],
  [('Error return values', 'every deserialize function')], AI, NOTE + MSGS + 'Two known findings are listed in known_findings.txt.')
p('C13', 'Announced sizes are exact',
  'The serialized size a message announces equals the number of bytes serialization writes, for every content, and every length prefix inside the encoding equals the number of content bytes that follow it.',
  ['inputs'], 'all contents of the messages of the schema corpus, strings, bytes and repeated fields',
  'A wrong prefix shows only at particular lengths, such as at the step from one to two length bytes.',
  [S + 'MessageSizeCalculator.h', S + 'MessageInterface.cpp', S + 'RepeatedField.h', S + 'FieldStringBytes.h'],
  [('size calculation by serializing into a counting buffer', S + 'MessageSizeCalculator.h')], AI, NOTE + MSGS)
p('C16', 'Presence of optional fields is tracked exactly',
  'An optional field is reported present exactly if it was set, accessed for modification or parsed since it was last cleared, independent of its value and of all other fields, and this is kept by copying, assigning and clearing the message, for any number of optional fields.',
  ['inputs', 'histories', 'configurations'], 'all contents, each operation, up to 66 optional fields per message',
  'Tests use a few optional fields in fixed sequences; bits of different fields interfere only for particular pairs.',
  [TPL + 'TypeDefMsg.h', TPL + 'FieldBasic_GetSet.h', TPL + 'FieldMsg_GetSet.h', TPL + 'FieldString_GetSet.h', TPL + 'FieldBytes_GetSet.h', TPL + 'FieldEnum_GetSet.h'],
  [('presence bit mask', TPL + 'TypeDefMsg.h')], AI, NOTE + MSGS)
p('C17', 'A oneof holds at most one member and never a mixture',
  'At any time at most one member of a oneof is selected; setting, accessing for modification or parsing a member selects it and deselects all others, clearing it or the message selects none, and clearing an unselected member changes nothing. The selected member holds exactly what was stored in it since it was selected, starting from its default value, whatever other member was selected before.',
  ['inputs', 'histories'], 'every selection before every operation, all contents, copies and parses included',
  'Remains of the previous member show only after particular switches; tests switch between a few.',
  [TPL + 'TypeOneof.h', TPL + 'TypeDefMsg.h', TPL + 'FieldBasic_GetSet.h', TPL + 'FieldMsg_GetSet.h', TPL + 'FieldString_GetSet.h', G + 'Oneof.py'],
  [('which_ variable and placement construction', TPL + 'TypeOneof.h')], AI, NOTE + MSGS)
p('C18', 'Copying, assigning and clearing cover the whole message; operations touch one field',
  'A copy or move construction or assignment makes the target equal to the source in every field, whatever the target held before, and leaves a copied source unchanged; clearing a message restores the state of a new one, in which every field is zero, empty or absent. An operation on one field stores exactly the value given and changes no other field, except those of the same oneof.',
  ['inputs', 'histories'], 'all contents of source and target, every field operation',
  'A forgotten field shows only if the target held something different there.',
  [TPL + 'TypeDefMsg.h', TPL + 'TypeOneof.h', TPL + 'FieldRepeated_GetSet.h', S + 'RepeatedFieldFixedSize.h', S + 'FieldStringBytes.h', S + 'Fields.h'],
  [('generated copy, assignment and clear', TPL + 'TypeDefMsg.h')], AI, NOTE + MSGS)
p('C12', 'Parsing always ends, whatever the input',
  'Parsing any sequence of bytes ends: no input makes the parser of any message or field run forever, and once the data has ended no further attempts are made to obtain more than a fixed small number of bytes for each byte of input. In particular lengths, counts and tags chosen by the sender never make the parser repeat work without consuming data.',
  ['inputs'], 'all inputs of up to four arbitrary bytes for every message (six in the thorough tier), three arbitrary bytes behind every tag, and arbitrary content behind every length for strings, bytes and repeated fields',
  'A test that does not end cannot be told from a slow one, and the inputs in question are the ones nobody thought of.',
  [S + 'FieldStringBytes.h', S + 'RepeatedField.h', S + 'MessageInterface.cpp', S + 'WireFormatter.h', TPL + 'TypeDefMsg.h'],
  [('loops over the input', 'deserialize of messages, repeated fields, strings and bytes, varints, skipping of unknown fields')], AI,
  NOTE + MSGS + 'A loop that returns to the same state, or that keeps reading after the end, is a violation.')
p('C14', 'Serializing and reading do not change a message, and nothing is shared between messages',
  'Serializing a message, computing its size and reading its fields leave all its content unchanged, whether or not they succeed. No function of the library or of generated code keeps state outside of the objects it is given, so that different messages can be used from different threads and one message can be read by several at a time.',
  ['schedules', 'inputs', 'configurations'], 'all contents, every write refused or accepted, every interleaving of calls on different objects',
  'Tests are single threaded; a shared buffer gives wrong results only under particular interleavings or nested calls.',
  [S + 'MessageInterface.h', S + 'MessageSizeCalculator.h', S + 'RepeatedField.h', S + 'WireFormatter.h', TPL + 'TypeDefMsg.h', TPL + 'FieldBasic_GetSet.h'],
  [('no objects with static storage', 'all of src and of the generated code')],
  'call graph and global variable analysis of the linked IR; ' + AI, NOTE + MSGS + 'Default values returned by reference may be static as long as they are constant.')
p('C15', 'No dynamic memory, no exceptions, bounded stack',
  'Neither the library nor generated code allocates dynamic memory, raises exceptions, or uses an amount of stack that depends on its input: no call path reaches an allocation function, there are no stack objects of variable size and no recursion beyond the nesting of message types in the schema.',
  ['inputs', 'configurations'], 'all functions and call paths of the library and of the code generated for the schema corpus',
  'An allocation on a rare path, such as an error path, is only seen by a test that takes this path and watches the allocator.',
  [S + 'Fields.h', S + 'FieldStringBytes.h', S + 'RepeatedFieldFixedSize.h', S + 'MessageInterface.cpp', TPL + 'TypeDefMsg.h', TPL + 'TypeOneof.h'],
  [('fixed size storage inside the objects', 'FieldStringBytes, RepeatedFieldFixedSize, generated messages')],
  'call graph reachability over the linked LLVM IR', 'Every function and call site of the linked IR of the library and of the generated corpus is inspected; virtual calls are not followed as edges, every overrider is a root itself. ' + MSGS)
p('C22', 'Field numbers, enumeration values, names and accessors agree with the schema',
  'The generated field number enumeration, the enumerations with their values, the names of fields and oneof selections, and the accessors of every field agree with the schema: each accessor acts on the field of that name, each number and name belongs to the field declared so, and no two fields share storage unless they are members of one oneof.',
  ['configurations', 'inputs'], 'every field and enumerator of the schema corpus, all values of each field',
  'Tests check a few accessors of a few messages.',
  [TPL + 'TypeDefMsg.h', TPL + 'TypeDefEnum.h', TPL + 'FieldBasic_GetSet.h', TPL + 'FieldRepeated_GetSet.h', G + 'TypeDefinitions.py', G + 'Field.py', G + 'Oneof.py'],
  [('FieldNumber enumeration, accessors', TPL + 'TypeDefMsg.h')], AI, NOTE + MSGS)
p('C20', 'Text rendering stays inside the array and is always terminated',
  'Rendering any message as text with to_string into an array of any size never writes or reads outside of the array or the fields of the message, leaves a terminated text in every array of at least one character, and returns a view of exactly the rest of the array. A text that does not fit is cut short: what is left is the beginning of the whole text. The message is not changed.',
  ['inputs', 'configurations'], 'all contents of the messages of the schema corpus, all array sizes up to 4000',
  'The rendering is not compiled by the test build at all; where it cuts a text depends on contents and sizes.',
  [S + 'Fields.h', S + 'FieldStringBytes.h', S + 'RepeatedField.h', S + 'Defines.h', TPL + 'TypeDefMsg.h', TPL + 'TypeOneof.h'],
  [('remaining characters', 'every to_string function')], AI, NOTE + MSGS + 'snprintf is modelled by the bounds of what it reads and writes and of the length it returns.')
p('C23', 'The text rendering names every field in order, each with its value',
  'In an array large enough, to_string gives, but for white space between the words, one object in braces that names every field in the order of the schema followed by the selected member of each oneof, separated by single commas, each with its value: numbers and enumerations in decimal, floating point in fixed notation, true or false, strings in quotes up to their first zero character, bytes and repeated fields as lists in brackets, messages as objects. Fields that are not set show their default value; nothing else is in the text.',
  ['inputs', 'configurations'], 'all values of the scalar fields of the messages of the schema corpus, strings, bytes and repeated fields of up to two elements, all selections and presences',
  'The rendering is not compiled by the test build at all.',
  [S + 'Fields.h', S + 'FieldStringBytes.h', S + 'RepeatedField.h', TPL + 'TypeDefMsg.h', TPL + 'TypeOneof.h'],
  [('conversion of each type', S + 'Fields.h'), ('order, names and commas', TPL + 'TypeDefMsg.h and TypeOneof.h')], AI, NOTE + MSGS + 'The text of a number is an opaque word that stands for its conversion and value; strings, bytes and repeated fields have up to two elements.')
p('C21', 'Every schema of the supported subset gives code that compiles',
  'For every schema of the supported subset of proto3 the generator produces code that compiles in C++11, 14, 17 and 20, with and without the text rendering where the standard allows it, whatever the order, nesting, packages and names of its types; and every header of the library can be used on its own.',
  ['configurations'], 'the schema corpus, schemas with unusual order, nesting and names, pseudo-randomly composed schemas; two compilers, four standards',
  'Tests compile one fixed set of schemas with one compiler and standard.',
  [G + 'ProtoFile.py', G + 'TypeDefinitions.py', G + 'Field.py', G + 'Oneof.py', TPL + 'TypeDefMsg.h', TPL + 'TypeOneof.h', S + 'Defines.h'],
  [('ordering of definitions', G + 'ProtoFile.py'), ('template parameters', G + 'Field.py'), ('scopes', G + 'TypeDefinitions.py')],
  'type checking of the library and of code generated for enumerated schemas (compile witnesses)',
  'Complete for each schema and standard type-checked; the set of schemas is finite: a corpus, odd cases and a pseudo-random family (unique type names). Two known findings: messages nested in a message with template parameters used elsewhere, and type names hidden by nested ones.')
