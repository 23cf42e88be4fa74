import json
P = []
S = 'sml/src/'
def p(id, title, st, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech)))
ALLP = [S + x for x in ('sml_file.c sml_message.c sml_shared.c sml_number.c sml_octet_string.c sml_boolean.c sml_status.c '
        'sml_value.c sml_time.c sml_list.c sml_tree.c sml_open_request.c sml_open_response.c sml_close_request.c '
        'sml_close_response.c sml_get_profile_pack_request.c sml_get_profile_pack_response.c '
        'sml_get_profile_list_response.c sml_get_proc_parameter_request.c sml_get_proc_parameter_response.c '
        'sml_set_proc_parameter_request.c sml_get_list_request.c sml_get_list_response.c sml_attention_response.c').split()]
p('C01', 'Parsing any byte sequence is memory safe',
  'Parsing any sequence of bytes, of any length and content, never reads or writes outside the given bytes and its own '
  'allocations, never uses released or uninitialised memory, and never executes an undefined operation. This holds for every '
  'element and message type, at any nesting and with any length or count field.',
  ['inputs'], 'every byte sequence of every length up to INT_MAX, for every parse entry point and any start position',
  'The tests parse a few dozen hand-written well-formed fragments; length fields, truncation points and nesting are unbounded.',
  ALLP, 'cursor/buffer_len comparisons before each read, length checks in sml_buf_get_next_length, sml_number_parse, '
  'sml_octet_string_parse, depth limit in sml_tree_parse')
p('C02', 'Everything allocated is owned once and released once',
  'Every object the library returns is owned exactly once, and releasing it returns every allocation made for it exactly once; '
  'a parse that fails releases everything it had allocated, and nothing is released twice or used afterwards. Writing an object '
  'leaves it owned and intact.',
  ['inputs', 'histories'], 'every input, every error position inside it, and every parse/free/write sequence',
  'Leaks and double frees only show on particular error positions; the tests run without a leak detector and reach few error paths.',
  ALLP, 'error labels and *_free functions of every type; ownership of the union members selected by tag or type')
p('C03', 'Parsing terminates with work bounded by the input',
  'Parsing any byte sequence terminates: every pass of every loop and every nested parse either consumes at least one byte of '
  'input or stops. Nesting of recursive elements is limited, so stack use is bounded by a constant.',
  ['inputs'], 'every byte sequence, including ones whose count fields claim far more elements than there are bytes',
  'A test cannot show that no input makes a loop spin; the count fields span the whole int range.',
  [S + 'sml_file.c', S + 'sml_list.c', S + 'sml_tree.c', S + 'sml_shared.c', S + 'sml_get_profile_pack_request.c'],
  'loops over element counts stop at the first error; the file loop advances or breaks; tree depth limit')
p('C04', 'Only messages with a matching checksum are reported',
  'A message is reported only when its checksum field equals the X.25 (or, for one meter family, Kermit) checksum of exactly '
  'the bytes of the message before it, and it then has a body with a tag. A message with a wrong checksum is '
  'dropped without affecting the messages before and after it, which are reported in their original order.',
  ['inputs'], 'every file content: any number of messages, any corruption of any of them',
  'The tests contain a handful of complete messages; that no corrupted message passes is a statement about all byte strings.',
  [S + 'sml_message.c', S + 'sml_file.c', S + 'sml_crc16.c'], 'sml_message_parse checksum comparison; sml_file_parse message loop')
p('C05', 'Scalar elements are decoded exactly',
  'Every accepted integer, boolean, octet string, status, value or time has exactly the contents its encoding denotes: '
  'big-endian, sign-extended from the transmitted length for signed types and zero-extended for unsigned ones, with the type and '
  'width reported, and exactly its bytes are consumed. Encodings of another type, of excessive length, or running past the end of the data are rejected.',
  ['inputs'], 'every byte sequence at every start position, every transmitted length and every requested width',
  'Tests sample a few values per width; shortened encodings, sign bits and multi-byte length fields combine far beyond them.',
  [S + x for x in ('sml_number.c', 'sml_octet_string.c', 'sml_boolean.c', 'sml_status.c', 'sml_value.c', 'sml_time.c', 'sml_shared.c')],
  'sml_number_parse, sml_octet_string_parse, sml_boolean_parse, sml_value_parse, sml_status_parse, sml_time_parse')
p('C06', 'Structured elements are decoded faithfully and completely',
  'Every accepted list, tree, path, sequence, message body and message has every field set from the corresponding element of the '
  'encoding, in order, with absent optional elements reported as absent and with as many members as the encoding has. No field is lost, swapped, '
  'duplicated or taken from another place.',
  ['inputs'], 'every accepted byte sequence, every message type, any number of entries and any nesting',
  'Most message types have one test with one or two distinguishable fields; swapping or losing a field in longer lists goes unseen.',
  ALLP, 'field order in every *_parse function; list, sequence, path and tree accumulation loops')
p('C07', 'A malformed element is always reported, and yields no object',
  'Whenever an element does not follow its grammar (wrong type, wrong element count, truncated, unknown choice), the error state '
  'is set and no object is returned, at every level up to the enclosing message; an element that follows it never sets the error state. '
  'An error once reported is never cleared by later parsing.',
  ['inputs'], 'every byte sequence and every position of the malformed element in it',
  'The tests check a few malformed headers; each parser has tens of error exits.',
  ALLP, 'buf->error propagation and the error labels of every *_parse function')
p('C08', 'Writing emits exactly the encoding of the object',
  'Writing an object appends exactly the standard encoding of its current contents at the write position, and nothing else: bytes '
  'before and after it are unchanged, the position advances by exactly the encoded length, which never exceeds the room the encoding needs, '
  'and the result does not depend on what the memory held before.',
  ['inputs', 'histories'], 'every well-formed object of every type, any lengths and counts, any prior buffer contents',
  'Tests write a few small objects into zeroed buffers.',
  ALLP, '*_write functions, sml_buf_set_type_and_length')
p('C09', 'Type-length fields round-trip for every length',
  'For every element type and every length or count, the written type-length field is the one the standard prescribes, with the '
  'least number of bytes, and reading it back yields the same type and length. Length fields that do not fit are rejected rather than misread.',
  ['inputs'], 'all types and all lengths up to 2^28, and every sequence of type-length bytes',
  'Tests use about ten lengths; carries into another length byte occur at isolated values.',
  [S + 'sml_shared.c'], 'sml_buf_set_type_and_length, sml_buf_get_next_length, sml_buf_get_next_type')
p('C10', 'What is written parses back to an equal object',
  'Parsing the bytes written for any well-formed message or element yields, without error, an object equal to the original and '
  'consumes exactly those bytes.',
  ['inputs'], 'every well-formed object of every element and message type',
  'Parser and writer are tested separately on different samples.',
  ALLP, 'pairing of the *_write and *_parse functions of every type')
p('C11', 'Checksums equal their bitwise definition',
  'For every byte string of every length the two checksum functions return the CRC-16/X.25 value (in transmission byte order) and the '
  'CRC-16/Kermit value of exactly those bytes.',
  ['inputs'], 'all byte strings of all lengths',
  'A table has 256 entries and tests checksum a few short strings, so a wrong entry or step stays unseen.',
  [S + 'sml_crc16.c'], 'crctab, sml_crc16_calculate, sml_crc16kermit_calculate')
p('C12', 'Transport reading returns exactly one framed file',
  'From any stream, a successful transport read returns the bytes from the first start sequence through the first aligned end sequence, '
  'unchanged and contiguous, never more than the caller allows, however the stream is split into reads; otherwise it returns zero. '
  'Noise before the start sequence, including partial start sequences, never hides a frame.',
  ['inputs', 'schedules', 'fault_sequences'], 'every stream, every split into short reads, every position of EOF or read errors, every buffer size',
  'Tests feed one or two canned frames through a pipe.',
  [S + 'sml_transport.c'], 'sml_transport_read, sml_read, sml_transport_listen')
p('C13', 'Transport writing emits one correctly framed file',
  'Transport writing sends, in one piece, the start sequence, the encoded messages, zero padding to a multiple of four, the end sequence '
  'with the padding count and the checksum of everything before it, and reports the number of bytes only if all were sent.',
  ['inputs', 'histories', 'fault_sequences'], 'every file, also one written before, and every result of the write call',
  'Tests do not check padding, the checksum or repeated writes over all residues.',
  [S + 'sml_transport.c', S + 'sml_file.c'], 'sml_transport_write, sml_file_write')
p('C14', 'Meter workarounds act only on the documented meters',
  'Values are reinterpreted as unsigned only for the power register, short signed encodings and meters whose serial number, seen earlier in the same '
  'list, is in the affected ranges, and only their sign is affected; the time workarounds act only on their documented encodings. '
  'Every other list is decoded unmodified.',
  ['inputs'], 'every list, every serial number, every value encoding and every order of entries',
  'Tests hold one affected meter; the exclusion of all others cannot be sampled.',
  [S + 'sml_list.c', S + 'sml_time.c'], 'detect_buggy_dzg_dvs74, sml_list_entry_parse, sml_time_parse')
p('C15', 'Value and octet-string helpers compute what they document',
  'Converting a value to a floating-point number gives the nearest double of the stored integer; rendering a string in hexadecimal or mixed form, '
  'reading hexadecimal, comparing octet strings, and constructing numbers and strings give exactly the documented result for all contents '
  'and lengths, within their allocations.',
  ['inputs'], 'all values of all eight integer widths, all octet strings and all hexadecimal strings',
  'Tests try a few strings; extremes of 64-bit values, odd or empty strings and mixed output are not covered.',
  [S + 'sml_value.c', S + 'sml_octet_string.c', S + 'sml_number.c', S + 'sml_boolean.c'],
  'sml_value_to_double, sml_value_to_strhex, sml_octet_string_*, sml_number_init')
p('C16', 'Adding to a container appends exactly one element',
  'Adding an element to a file, sequence, tree, path or list keeps all previous elements in order, appends the new one '
  'last, and counts it; a fresh container is empty. This holds for containers of any size.',
  ['histories', 'inputs'], 'every container built by any history of additions',
  'Tests add one or two elements.',
  [S + x for x in ('sml_file.c', 'sml_list.c', 'sml_tree.c', 'sml_message.c', 'sml_get_profile_pack_request.c')],
  'sml_file_add_message, sml_sequence_add, sml_tree_add_tree, sml_tree_path_add_path_entry, sml_list_add and the *_init functions')
p('C17', 'The example server survives any meter data',
  'For every frame received, the example server neither crashes nor accesses memory it should not, releases the parsed file, and prints for each '
  'list entry with a name and a value exactly one line with its own name and value.',
  ['inputs'], 'every frame content and every option combination',
  'The server has no tests.',
  ['examples/sml_server.c', S + 'sml_file.c', S + 'sml_value.c'], 'transport_receiver')
p('C18', 'Results depend only on the arguments',
  'Parsing, writing, checksumming and freeing neither read nor change hidden state: the same arguments give the same result after any history of earlier '
  'calls, and independent objects may be processed concurrently.',
  ['histories', 'schedules'], 'every history of earlier calls and every interleaving of calls on independent objects',
  'Tests run each call once from a fresh start.',
  ALLP + [S + 'sml_transport.c', S + 'sml_crc16.c'], 'no writable static or global data; fresh workaround state per list; reused crc and buffer on rewrite')
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
