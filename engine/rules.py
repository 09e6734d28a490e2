from registry import PROPS
import rules_auth
import rules_gates, rules_lookup, rules_load, rules_set, rules_ns, rules_shape
import rules_input
import rules_net, rules_conn, rules_parse, rules_record, rules_read
import rules_reply, rules_scan, rules_cursor, rules_list, rules_lock
import rules_store
