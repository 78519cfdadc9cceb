"""Buffers, json documents, strings and paths (basicsys)."""
from spec.mat import leg, ASAN

S = "basicsys/"
J, BUF, STR, PATH = S + "src/sys_json.cpp", S + "src/sys_buffer.cpp", S + "src/sys_strhelper.cpp", S + "src/sys_path.cpp"

PROPERTIES = [
    {
        "id": "C01", "title": "A json document reads back as it was written, as text or binary",
        "statement": "Every document - maps of names, sequences, nested to any depth, values of type b8, i8 to u64, f32, f64 and text, vectors of any of them - written with sys_json_writer into a text or byte buffer in memory or in a file is read back by sys_json_reader with the same structure, names, order and values (text: real numbers with at least 9 and 17 digits), however often and in whatever order its nodes are read. "
                     "Nothing is logged as an error, and no byte outside the document is touched.",
        "quantifier": {"over": ["inputs", "histories"], "text": "all documents (in the text format: texts without line break, tab, braces and brackets, names also without colon, sequences whose elements are all plain, all maps or all sequences) and all orders of reading"},
        "why": "sizes and positions of nodes are patched in after writing and found again by counting tabs and brackets; errors depend on nesting, empty nodes and values at the border of a type, of which the tests see one document each",
        "anchors": {"files": [J, S + "include/sys_json.h"],
                    "mechanism": [{"name": "data sizes filled in after a node is written", "where": J + ": pre_process_map_seq, post_process_map_seq"}, {"name": "finding the nodes of a text", "where": J + ": text_load_struct_info, find_match_character"}, {"name": "finding the nodes of a binary document", "where": J + ": binary_load_struct_info"}],
                    "observe_at": ["values, names and order that sys_json_reader gives", "status of the buffers", "error log"], "hook_needed": None},
        "legs": [leg("h_sys", "json", 120000, 1000000, thorough_seeds=2)],
        "technique": ASAN + "every node of random documents read back and compared with the tree that was written",
        "note": "Complete for each document observed: every node is read, in random order, some twice, with random buffer positions before. Documents are sampled (up to 65 levels, texts up to 70000 characters). Root sequences of plain values in texts and reading a value as another type are outside the contract.",
        "rule": "distinct documents", "floor": {"deep_documents": 500, "long_texts": 300, "mixed": 2000, "nodes_read": 300000, "written_as_list": 8000, "read_as_list": 12000, "iterated": 30000, "read_again": 4000, "texts": 3000, "text_files": 1500, "binaries": 3000, "binary_files": 1500},
    },
    {
        "id": "C02", "title": "Buffers and buffered files hold exactly the bytes written to them",
        "statement": "For every sequence of writes of values, texts and bytes and seeks from start, current position and end, the byte and string writers (in memory and in a file, starting new or appending) leave exactly the content that the operations name, and position and size are those of the content. "
                     "Readers of it return these bytes, values and lines at every position reached by any sequence of reads and seeks, and reading beyond the end sets the status, returns nothing made up and touches no memory outside.",
        "quantifier": {"over": ["histories", "inputs"], "text": "all sequences of operations on all kinds of buffers, with missing and empty files"},
        "why": "positions, ends and status depend on the order of the operations, and failures at the end of a buffer are memory errors; no test uses the buffers other than through one json document",
        "anchors": {"files": [BUF, S + "include/sys_buffer.h"],
                    "mechanism": [{"name": "position and end of memory buffers", "where": BUF + ": write, seek, position, size"}, {"name": "files", "where": BUF + ": sys_byte_file_buffer_*, sys_string_file_buffer_*"}],
                    "observe_at": ["content of memory and files, results and status of every call"], "hook_needed": None},
        "legs": [leg("h_sys", "buffers", 300000, 4000000, thorough_seeds=2)],
        "technique": ASAN + "online comparison with a model of content, position and status after every operation",
        "note": "Complete for each sequence observed. Sequences are sampled. Offsets from the end are the distance back from it in memory and those of fseek in files, as the code has it. Seeks of a string writer beyond its end are outside the contract.",
        "rule": "distinct sequences of operations", "floor": {"seeks_from_end": 20000, "values_beyond_end": 3000, "large_contents": 500, "writes": 150000, "reads": 120000, "seeks": 40000, "lines": 10000, "appended": 4000, "beyond_end": 8000, "missing_files": 1000, "empty_writes": 5000},
    },
    {
        "id": "C03", "title": "String functions give the result their definition names",
        "statement": "split gives the parts between the tags, replace replaces each occurrence from left to right, trim, lower, upper and the other helpers change exactly what they name, and the edit distance is the cheapest sequence of insertions, deletions and replacements for any words and costs. "
                     "sys_strcombine and format give every number the text of its value, sys_strconvert gives it back, and wide and narrow texts convert into each other.",
        "quantifier": {"over": ["inputs"], "text": "all texts, tags, words of any length, non-negative costs, and all values of all number types"},
        "why": "tags of more than one character, overlaps, empty texts, words beyond the size of the static buffers and unequal costs take branches that the tests do not visit",
        "anchors": {"files": [STR, S + "src/sys_strconvert.cpp", S + "include/sys_strcombine.h"],
                    "mechanism": [{"name": "edit distance with rows of different integer types", "where": STR + ": levenshtein distance"}, {"name": "split and replace", "where": STR + ": split, replace"}],
                    "observe_at": ["results of the functions"], "hook_needed": None},
        "legs": [leg("h_sys", "strings", 1500000, 15000000, thorough_seeds=2)],
        "technique": ASAN + "results compared with direct implementations of the definitions",
        "note": "Complete for each call observed; inputs are sampled. Replacing an empty text is outside the contract.",
        "rule": "distinct calls", "floor": {"long_combined": 150, "words_of_1024": 120, "words_of_4048": 6, "splits": 20000, "replaced": 20000, "distances": 40000, "long_words": 1500, "combined": 40000, "converted": 20000},
    },
    {
        "id": "C04", "title": "Paths, listings and deletions concern exactly the files they name",
        "statement": "For every path (with / or \\, dots and spaces in any part) the file name, title, lower-case extension, folder path and folder name are its parts; get_file_name, get_file_path and get_dir_path list exactly the files (with the suffix) and folders in a folder. "
                     "delete_file, delete_dir and delete_sub_dir remove exactly what they name - whole trees when forced, never the target of a link - and create_multi_dir, copy_file and move_file leave exactly the named files with their content, overwriting only when allowed.",
        "quantifier": {"over": ["inputs", "histories"], "text": "all paths and all trees of files, folders and links with any names"},
        "why": "wrong deletions and overwritten files depend on the shape of the tree (nested folders, links, spaces and quotes in names, long paths); no test touches the file system this way",
        "anchors": {"files": [PATH],
                    "mechanism": [{"name": "recursion over folders", "where": PATH + ": delete_sub_dir, delete_dir"}, {"name": "listing", "where": PATH + ": get_file_name, get_file_path, get_dir_path"}],
                    "observe_at": ["the tree of files before and after every call, and a tree outside it"], "hook_needed": None},
        "legs": [leg("h_sys", "paths", 50000, 500000, thorough_seeds=2)],
        "technique": ASAN + "complete snapshot of the file tree (names, kinds, content) before and after every call compared with a model",
        "note": "Complete for each call observed; trees are sampled. Runs as an unprivileged user in a scratch directory. The folder path of a path without a folder is outside the contract.",
        "rule": "distinct calls", "floor": {"names": 2500, "listed": 2500, "deleted_file": 400, "deleted_dir": 400, "deleted_dir_force": 300, "deleted_all": 800, "made": 800, "long_path": 40, "copied": 700, "moved": 700, "replaced_file": 500, "links": 5000},
    },
]
