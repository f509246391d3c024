"""PROPS[id] = dict(gen=fn(version, tier) -> Rust source or None, bounds, assumptions, ...)."""
from base import *
from p_schema import *
from p_msg import *
from p_util import *
from p_task import *
from p_text import *
PROPS = {
    "C01": dict(gen=c01, bounds=docb(1, 2)),
    "C02": dict(gen=c02, bounds=docb(0, 1) + ["one mutated member per document, every declared member of every object definition, every JSON kind the definition excludes", "not counted as wrong kind: null for an optional member, an array for an object (serde reads structs from sequences)"]),
    "C03": dict(gen=c03, bounds=docb(0, 1) + ["strings in place of the constant: all ASCII strings of every length up to 8 beyond the constant's, twice as long, one more, and of length 65; all texts of 1 ASCII plus 4 two-byte characters; the constant with any one non-ASCII character before, after or inside it; any one non-ASCII character alone"]),
    "C04": dict(gen=c04, bounds=docb(0, 1) + ["method texts: all ASCII strings of every length up to 2 (thorough: 11) beyond the longest standard method; standard methods with any one non-ASCII character before or after; 1 ASCII plus 3 two-byte characters"]),
    "C05": dict(gen=c05, bounds=docb(1, 2) + ["ids: all 64-bit integers, all ASCII strings of length 3, the empty string, 1 ASCII plus 1 two-byte character", "custom methods: all ASCII texts of length 0, 9 and 10 and 1 ASCII plus 2 two-byte characters that are not standard"]),
    "C06": dict(gen=c06, bounds=docb(1, 2) + ["ids: all 64-bit integers and all ASCII strings of length 4"]),
    "C07": dict(gen=c07, bounds=docb(1, 2) + ["ids: all 64-bit integers and all ASCII strings of length 3, or none", "custom methods: all ASCII texts of length 1 and 9 and 1 ASCII plus 2 two-byte characters that are not standard"]),
    "C08": dict(gen=c08, bounds=docb(1, 2)),
    "C09": dict(gen=c09, bounds=["ids and tokens: all 64-bit signed integers, all unsigned integers beyond them, all finite doubles, booleans, null, arrays and objects; strings of 3, 0, 1, 20 and 64 symbolic ASCII characters, 1 ASCII plus 1 or 9 two-byte characters (pairs in quick: the first four shapes)", "decimal text of integer ids: all integers of magnitude below 2^10 (quick) / 2^14 (thorough), and the 8 smallest and 8 largest 64-bit integers"]),
    "C10": dict(gen=c10, bounds=["texts: all ASCII strings of every length up to 3 beyond the longest name of the enumeration, twice each name's length and 65; 1 ASCII plus 1 or 4 two-byte characters; any one non-ASCII character alone, before or after each name", "every enumeration and name; every pair of names"]),
    "C11": dict(gen=c11, bounds=["texts: 4, 1, 7, 13, 40, 70, 150 or 300 symbolic ASCII characters, empty, 1 ASCII plus 3 or 70 two-byte characters, 2 four-byte characters, a space and any one non-ASCII character, and, with the default configuration, symbolic ASCII characters of every length from 0 to 56 for the first text of a document (thorough: also every length from 3 to 34 and 1100); tool names of invalid_arguments: 3, 1 or 0 symbolic ASCII characters and one fixed non-ASCII name", "codes read from JSON: all 64-bit integers; timeouts: all 128-bit values", "data: absent, or any JSON value of the free-form shapes"]),
    "C12": dict(gen=c12, versions=VS[3:], bounds=["capability objects: every combination of present and absent members relevant to a check, including every nesting of the task capabilities; what an advertised capability holds beyond that: nothing, or every flag of it (listChanged, subscribe) with any value, contents the schema does not name, and experimental and extension entries", "requests: every standard method, with every optional feature that has its own capability (task augmentation, context inclusion, tools, tool choice) present or absent, other members minimal or full", "custom request and notification methods: all ASCII texts of every length up to 2 beyond the longest standard method and of length 65, 1 ASCII plus 2 or 3 two-byte characters, a standard method with any one non-ASCII character before or after (notifications in quick: for the empty capability object)"]),
    "C13": dict(gen=c13, versions=VS[2:], bounds=docb(1, 2) + ["type names: all ASCII strings of length 6, 7, 0, 1, 5, 4 and 9, 1 ASCII plus 3 two-byte characters; a type of every other JSON kind, or none", "nonconforming maps: one member (declared or one that names choices) replaced by any JSON value: null, any boolean, any 64-bit integer, any double, any ASCII text of length 4, empty and mixed arrays, objects"]),
    "C16": dict(gen=c16, versions=VS[3:], bounds=docb(1, 2) + ["texts: 4, 1, 7, 13, 40, 70, 150 or 300 symbolic ASCII characters, empty, 1 ASCII plus 3 or 70 two-byte characters, 2 four-byte characters, a space and any one non-ASCII character, and, with the default configuration, symbolic ASCII characters of every length from 0 to 56 for the first text of a document (thorough: also every length from 3 to 34 and 1100)", "maps of up to 3 input requests or responses with pairwise different or equal keys (2 symbolic ASCII characters, or fixed), and of 6 or 12 with fixed keys"]),
    "C14": dict(gen=c14, bounds=["batches of 0 to 3 (quick) / 4 (thorough) messages, every combination of kinds (single messages and the first of a pair: the first and last standard request, notification and result of each side, and errors; otherwise one of each kind)", "batches of 5, 9 and 17 (thorough also 40) fixed messages with the kinds in rotation, or all of one kind except one at the end (of 5, thorough 17: anywhere)", "ids: all 64-bit integers or all ASCII strings of length 2; error codes: all 64-bit integers; strings: 3 or 1 symbolic ASCII characters or 1 ASCII plus 1 two-byte character", "not batches: one element replaced by a JSON value of another kind, by an empty object or by an object with only an id"]),
    "C15": dict(gen=c15, bounds=docb(1, 2) + ["lists of 0, 1, 2, 5 and 12 blocks (0-3, 8 and 20 texts in a list of form values); texts: 4, 1, 7, 13, 40, 70, 150 or 300 symbolic ASCII characters, empty, 1 ASCII plus 3 or 70 two-byte characters, 2 four-byte characters, a space and any one non-ASCII character, and, with the default configuration, symbolic ASCII characters of every length from 0 to 56 for the first text of a document (thorough: also every length from 3 to 34 and 1100)"]),
    "C17": dict(gen=c17, bounds=["texts: all ASCII texts of up to 3 (quick) / 4 (thorough) characters and one non-ASCII character; messages in which up to 2-3 (quick) / 3-4 (thorough) symbolic ASCII characters, or any one non-ASCII character (two, three or four bytes), stand in place of or inside the id, before, after or between the members, or name a further member (2, 5, 6 or 7 lower-case letters, none of those already present); messages cut off anywhere", "documents: one of every standard request, notification, result and an error, with every subset rule of the generator (minimal and full) and fixed leaf values; printed batches of 0 to 3 messages of every combination of kinds; printed strings of 2 (quick) / 3 symbolic ASCII characters or one non-ASCII character"]),
}
