"""Which contracts and bounded stand-ins decide which property."""
UNIT_ARGS = {}
COMMON_ASSUMPTIONS = [
    "everything in trusted_base is assumed: std collections as mathematical maps/sets, I/O shims, world model effects",
    "closures handed to concurrently() run one after another (contracts do not speak about their interleaving)",
    "machine integers: Verus checks overflow on the extracted code except for counters shown through the AtomicU64 shim and functions marked @math",
]
H = ("history", [])
C = ("crash", [])
I = ("index", [])
P = ("pack", [])
T = ("tree", [])
# scenarios that start the real binary many times run in several processes of different seeds
WORKERS = {"history": 4, "crash": 4, "fs": 2, "store": 2, "check": 3, "restore": 3, "chunk": 3}
PROPS = {
    "C01": dict(units={"packw": "*"}, scenarios=[P, H], level="proof", note="the whole packer: PackfileWriter and pack()"),
    "C02": dict(units={"read": "*", "pack": ["extract_blob"], "tree": ["Cache::read"]}, scenarios=[P, H, C], level="proof", note="ChunkReader, extract_blob, tree cache"),
    "C03": dict(units={"pack": "*", "load": "*", "tree": ["append_tree"], "read": ["ChunkReader::load_pack", "ChunkReader::read_blob"]}, scenarios=[P, H], level="proof", note="every reader of packfiles, indexes and snapshots"),
    "C04": dict(units={"check": "*", "pack": ["verify"], "resume": ["backend__probe_pack", "probe_pack"], "index": ["build_master_index*", "blob_to_pack_map"], "tree": ["forest_from_root", "append_tree", "chunks_in_tree"]}, scenarios=[("check", []), P], level="proof", note="the whole check command"),
    "C05": dict(units={"fswalk": ["backup_visit", "backup_finalize"], "repack": ["repack_chunk", "walk_tree", "walk_snapshot", "walk_snapshots"], "indexer": ["index"], "index": ["build_master_index*", "blob_id_set"], "copy": "*", "filtersnap": "*", "backup": "*"}, scenarios=[H, C], level="proof", note="the whole backup, copy and filter-snapshot commands"),
    "C06": dict(units={"copy": "*", "filtersnap": "*", "backup": "*", "packw": ["pack", "finalize*"], "indexer": ["index", "upload", "to_file", "to_temp_file"]}, scenarios=[C, H], level="proof", note="backup, copy and filter-snapshot over the repository's contents: whatever any visible snapshot needs is found in a listed, present pack at every step, so nothing that refers to it is published before it"),
    "C07": dict(units={"index": ["build_master_index_with_sizes"]}, scenarios=[I, H], level="proof", note="build_master_index_with_sizes under contract"),
    "C08": dict(units={"index": ["blob_to_pack_map", "blob_id_set", "blob_to_size_map"]}, scenarios=[I, H], level="proof", note=""),
    "C09": dict(units={"prune": "*", "repack": ["walk_snapshots", "walk_snapshot", "walk_tree", "repack_chunk"], "index": ["build_master_index*", "blob_to_pack_map", "blob_id_set"], "resume": ["find_resumable", "upload_cwd_packfiles"], "tree": ["forest_from_root", "append_tree", "chunks_in_tree"]}, scenarios=[H, C], level="proof", note="the whole prune command"),
    "C10": dict(units={"prune": "*", "repack": ["walk_snapshots", "walk_snapshot", "walk_tree", "repack_chunk"]}, scenarios=[H, C], level="proof", note="the whole prune command"),
    "C11": dict(units={"rebuild": "*", "prune": ["run"], "indexer": ["index", "upload", "is_empty"], "resume": ["find_resumable"]}, scenarios=[C, H], level="proof", note="the whole of prune and rebuild-index, over the repository's contents: each removal's precondition is what the property demands"),
    "C12": dict(units={"resume": "*", "copy": ["run"], "backup": ["ui__backup__run", "run"], "indexer": ["to_file", "to_temp_file", "index", "upload"], "prune": ["run"]}, scenarios=[C, H], level="proof", note="finding and finishing an interrupted run, and keeping the work-in-progress index"),
    "C15": dict(units={"restore": "*"}, scenarios=[("restore", []), H], level="proof", note="the whole restore command over the state of the disk; the walk of the destination is assumed to tell what is there (its parts: unit fswalk)"),
    "C16": dict(units={"restore": ["run", "compare_trees", "compare_nodes", "node_added", "node_removed", "contents_changed", "metadata_changed", "directory_changed", "type_changed"], "copy": ["run"], "backup": ["ui__backup__run", "run"], "filtersnap": ["run"], "prune": ["run"], "forget": "*", "rebuild": "*", "indexer": ["upload"]}, scenarios=[H, ("restore", [])], level="proof", note=""),
    "C30": dict(units={"rebuild": "*", "indexer": ["index", "upload", "is_empty", "to_file", "to_temp_file"], "pack": ["load_manifest", "manifest_from_reader"], "load": ["from_reader", "load"]}, scenarios=[H, C], level="proof", note="the whole rebuild-index command"),
    "C13": dict(units={"repack": "*", "copy": "*", "filtersnap": "*"}, scenarios=[H], level="proof", note="the filtering walk and what it hands to the packers, and the whole copy and filter-snapshot commands"),
    "C14": dict(units={"diff": "*"}, scenarios=[T, H], level="proof", note="compare_trees/compare_nodes and their callbacks' call sites"),
    "C17": dict(units={"fswalk": ["file_changed", "walk_fs", "parent_snapshot", "backup_visit", "forest_visit"], "backup": ["backup_visit", "backup_finalize", "backup_filter", "walk_fs"]}, scenarios=[("fs", []), H], level="proof", note="reuse decision, the walk and the choice of parent"),
    "C18": dict(units={"snap": "*"}, scenarios=[("snap", []), H], level="proof", note="find, from_args_list and load_chronologically"),
    "C19": dict(units={"forget": "*"}, scenarios=[H, C], level="proof", note="the whole forget command over the snapshot store"),
    "C20": dict(units={"hash": ["base32_encoding", "BASE32", "display_fmt", "from_str", "destination", "id_from_path", "serialize", "deserialize"]}, scenarios=[("hash", []), ("store", [])], level="proof", note="formatting, parsing, (de)serialization and file naming; the base32 crate's strict mode is assumed to be a bijection"),
    "C21": dict(units={"hash": ["hash", "from_digest", "Hashing*", "*for Hashing*", "*AtomicCount*"]}, scenarios=[("hash", [])], level="proof", note="every method of the four adapters"),
    "C23": dict(units={"read": ["ChunkCache::*", "min_time", "read_blob"]}, scenarios=[P], level="proof", note="the whole chunk cache"),
    "C25": dict(units={"sem": "*"}, scenarios=[("sem", [])], budget={"quick": 20, "thorough": 300}, level="proof", note=""),
    "C27": dict(units={"tree": ["forest_sizes", "tree_size", "node_size"]}, scenarios=[T, H], level="proof", note=""),
    "C29": dict(units={"tree": ["forest_from_root", "append_tree", "Cache::new", "Cache::read"]}, scenarios=[T, H], level="proof", note=""),
    "C31": dict(units={"fswalk": ["reject_matching_directories"]}, scenarios=[("fs", []), H], level="proof", note=""),
    "C32": dict(units={"tree": ["meta_diff_char", "posix_kind", "windows_kind", "NodeMetadata::kind", "Node::kind"]}, scenarios=[T, H], level="proof", note=""),
    "C22": dict(units={"chunk": "*"}, scenarios=[("chunk", [])], level="proof", note="the whole of chunk.rs and file loading; that FastCDC cuts partition their input is assumed of the crate"),
    "C24": dict(units={"cache": "*", "store": ["safe_copy_to_file", "move_by_copy", "move_opened"]}, scenarios=[("cache", [])], level="proof", note="every method of Cache but its construction, and reads, writes and removals through CachedBackend; SQLite and one repository per cache are assumed"),
    "C28": dict(units={"filter": "*"}, scenarios=[("store", [])], level="proof", note="BackendFilter, the reader it returns, read_config, write_config and open; the two commands are prophecies (a run relates the line, what was fed, what was printed and whether it succeeded)"),
    "C26": dict(units={"store": "*", "cache": ["CachedBackend::write"]}, scenarios=[("store", []), C], level="proof", note="storing, moving, removing and listing files in a filesystem repository"),
}
NOT_APPLICABLE = {
    "C33": "termination over every interleaving of three threads and bounded channels is a liveness property of a concurrent program; the contracts here are sequential (threads are joined by assumed contracts), and the verifier has no notion of blocking or fairness. One genuine defect of this kind was repaired (192e541); the crash scenario watches for hangs, which decides nothing.",
    "C34": "the B2 client is a thin layer over an HTTP crate and a network service that cannot run here; every fact that matters (what the service stored, which errors ask for a retry) would be an assumption about that service, and there is no way to validate such a contract or replay a violation.",
}
