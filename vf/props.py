"""Which contracts and which obligations decide each property."""
from contracts import STEMS

ELEMS = [s for k, s in STEMS.items() if k not in ('Tree',)]
PARSE = ['sml_%s_parse' % s for s in ELEMS] + ['sml_tree_parse_', 'sml_tree_parse', 'sml_number_parse',
        'sml_boolean_parse', 'sml_list_entry_parse', 'sml_sequence_parse', 'sml_buf_get_next_length', 'sml_file_parse']
FREE = ['sml_%s_free' % s for s in STEMS.values()] + ['sml_number_free', 'sml_boolean_free', 'sml_sequence_free',
                                                      'sml_file_free']
WRITE = ['sml_%s_write' % s for s in STEMS.values()] + ['sml_number_write', 'sml_boolean_write', 'sml_sequence_write',
        'sml_buf_set_type_and_length', 'sml_file_write', 'sml_transport_write']
SCALAR = ['sml_number_parse', 'sml_boolean_parse', 'sml_octet_string_parse', 'sml_status_parse', 'sml_value_parse',
          'sml_time_parse', 'sml_buf_get_next_length']
STRUCT = [f for f in PARSE if f not in SCALAR]
CRC = ['sml_crc16_calculate', 'sml_crc16kermit_calculate']
ADD = ['sml_file_add_message', 'sml_sequence_add', 'sml_tree_add_tree', 'sml_tree_path_add_path_entry', 'sml_list_add']
INIT = ['sml_file_init', 'sml_sequence_init', 'sml_tree_init', 'sml_tree_path_init', 'sml_list_init', 'sml_buffer_init']
HELP = ['sml_value_to_double', 'sml_value_to_strhex', 'sml_octet_string_init', 'sml_octet_string_init_from_hex',
        'sml_octet_string_cmp', 'sml_octet_string_cmp_with_hex', 'sml_octet_string_generate_uuid', 'sml_number_init',
        'sml_boolean_init']
TRANS = ['sml_read', 'sml_transport_read', 'sml_transport_listen']
SERVER = ['transport_receiver', 'dlms_get_unit']

# property -> [(functions, tags)]
SETS = {
    'C01': [(PARSE + FREE, 'mem pre inv')],
    'C02': [(PARSE + FREE + WRITE, 'own pre')],
    'C03': [(PARSE + FREE, 'term')],
    'C04': [(['sml_message_parse', 'sml_message_body_parse', 'sml_file_parse'] + CRC, 'val cur err nul fx')],
    'C05': [(SCALAR, 'val cur err nul tl')],
    'C06': [(STRUCT, 'val cur')],
    'C07': [(PARSE, 'err nul')],
    'C08': [(WRITE, 'enc cap frame')],
    'C09': [(['sml_buf_get_next_length', 'sml_buf_set_type_and_length'], 'tl enc cur err frame cap')],
    'C10': [(PARSE, 'val cur err'), (WRITE, 'enc')],
    'C11': [(CRC, 'fx mem')],
    'C12': [(TRANS, 'fx mem frame pre inv')],
    'C13': [(['sml_transport_write', 'sml_file_write', 'sml_message_write', 'sml_crc16_calculate'], 'enc cap fx own frame mem')],
    'C14': [(['sml_list_entry_parse', 'sml_list_parse', 'sml_time_parse', 'sml_value_parse'], 'val cur err nul')],
    'C15': [(HELP, 'fx mem own val')],
    'C16': [(ADD + INIT, 'fx mem own val frame')],
    'C17': [(SERVER + ['sml_file_parse', 'sml_file_free', 'sml_value_to_double', 'sml_value_to_strhex'], 'fx mem own pre')],
    'C18': [],     # lemmas.pure_state
}

# rough seconds, to start the long ones first
SLOW = {'sml_transport_read': 300, 'sml_read': 40, 'sml_message_write': 40, 'sml_list_write': 900, 'sml_number_parse': 35, 'sml_get_profile_pack_request_write': 45,
        'sml_buf_set_type_and_length': 26, 'sml_list_entry_parse': 15, 'sml_crc16_calculate': 25,
        'sml_crc16kermit_calculate': 25, 'sml_message_body_write': 25, 'sml_sequence_write': 20,
        'sml_get_profile_pack_request_parse': 10, 'sml_tree_write': 12, 'sml_tupel_entry_write': 9}

# functions in reach of no contract yet (reason); decided by the bounded comparison
BOUNDED = {n: 'contract under construction' for n in HELP + SERVER + [
    'sml_list_write']}

LEVEL_NOTES = {}
