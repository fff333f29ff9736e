prop("P01", "Connected peers converge to the same project content",
  "Once nobody makes changes any more and every joining daemon has a working connection to its host, all project directories hold the same set of shared files with the same contents within a bounded time. This holds whatever mix of editor edits, file changes by other programs, file creations and deletions happened before, and however their messages were delayed, split up or cut off by lost connections and restarts.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of edits at 2-4 peers, message delays, short reads, stalls, connection losses, daemon restarts",
  "Unit tests exchange sync messages between two in-memory documents in one fixed order; the only multi-daemon test (the fuzzer) is excluded as unreliable, uses one schedule, no faults and one file.",
  [D+"daemon.rs", D+"peer.rs", D+"document.rs", D+"types.rs"],
  [("every change pings the per-peer sync task, which generates Automerge sync messages until both sides agree", D+"peer.rs SyncActor::run; daemon.rs doc_changed_ping_tx"),
   ("length-prefixed framing of sync messages on the peer stream", D+"peer.rs protocol_handler"),
   ("patches of a received message are written to disk and sent to editors", D+"daemon.rs ReceiveSyncMessage; types.rs PatchEffect")],
  [("peer_state", "what this side believes the peer has", D+"peer.rs SyncActor"),
   ("crdt_doc", "the shared document", D+"daemon.rs DocumentActor")],
  ["project directories on disk", "editor buffers"])
prop("P02", "An editor's buffer and the daemon's text never drift apart",
  "For every interleaving of a user's typing with edits arriving from other participants, an editor that follows the editor protocol (apply an edit only if its revision matches, otherwise ignore it) ends up, once all messages have been delivered, with exactly the text that every other editor and the project directory show. Every edit it is told to accept fits its buffer at that moment, and the daemon never fails on an edit of a conforming editor.",
  ["schedules", "histories", "inputs"],
  "all message interleavings on the editor socket; all sequences of insertions, deletions and replacements over multi-byte, multi-line texts; several files and several editors",
  "Unit tests of the transformation code walk through a handful of hand-written operation sequences; they do not cover the crossing of messages on a real connection nor long histories.",
  [D+"ot.rs", D+"editor_connection.rs", D+"types.rs", D+"daemon.rs", "book/src/editor-plugin-dev-guide.md"],
  [("operations not yet confirmed by the editor are queued and transformed against the editor's own operations", D+"ot.rs apply_editor_operation / apply_crdt_change"),
   ("positions are converted between (line, character) and offsets of the right base text", D+"types.rs from_delta / from_ed_delta")],
  [("editor_revision / daemon_revision", "number of operations seen from each side", D+"ot.rs"),
   ("editor_queue", "operations sent but not confirmed", D+"ot.rs"),
   ("last_confirmed_editor_content", "text the next editor operation refers to", D+"ot.rs")],
  ["messages on the editor socket", "buffer of the protocol-following editor"])
prop("P03", "No edit is lost, duplicated or torn",
  "Every piece of text that some participant inserts through an editor, or with another program in a file that nobody else is working on, and that nobody deletes, is present in the final content at every peer exactly once and in one piece; text that somebody deleted and nobody re-inserted is absent. This holds across reconnects, re-synchronisation and daemon restarts.",
  ["schedules", "histories", "fault_sequences", "crash_points"],
  "all interleavings of inserts and deletes at all peers, reconnects and restarts in between",
  "Convergence alone would accept a system that drops or doubles everybody's text; tests check single edits only and never reconnect or restart.",
  [D+"document.rs", D+"daemon.rs", D+"ot.rs", D+"peer.rs"],
  [("edits are applied to the document as splices at the transformed offsets", D+"document.rs apply_delta_to_doc"),
   ("on restart the persisted document is loaded and only the difference to the files is applied", D+"daemon.rs DocumentActor::new; document.rs update_text")],
  [("crdt_doc", "the shared document", D+"daemon.rs"), (".ethersync/doc", "persisted document", D+"daemon.rs Persist")],
  ["project directories", "editor buffers"])
prop("P04", "The daemon leaves files alone while an editor has them open",
  "From the moment the daemon has accepted an editor's request to open a file until the last editor holding it has closed it or has disconnected, the daemon does not write that file on disk and does not take over changes other programs make to it. Once the last editor has let go of the file, in whatever way, the file on disk holds the shared text within a bounded time.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of open/close/disconnect of one or more editors with remote edits, including editors that die without closing",
  "Tests call the ownership predicate on a freshly built object; they never interleave opening and closing with remote edits and never kill an editor.",
  [D+"daemon.rs", D+"editor_connection.rs"],
  [("a file is written only if no editor connection tracks it", D+"daemon.rs owns / maybe_write_file"),
   ("close writes the file", D+"daemon.rs inside_message_to_doc Close")],
  [("ot_servers", "files an editor has open", D+"editor_connection.rs")],
  ["write, truncate and rename system calls on project files", "file contents"])
prop("P05", "Changes made by other programs reach everybody",
  "When a program other than an editor creates, changes, replaces, renames or deletes a text file of the project while the daemon runs and no editor has the file open, then, if nobody else changes the same file at the same time, every connected peer's directory shows the new state of that file within a bounded time after the program is done. This holds for every way of saving (truncate and write in pieces, write a new file and rename it over the old one, delete and recreate).",
  ["schedules", "histories", "inputs"],
  "all orders and delays of file-system notifications relative to the program's system calls and to other traffic; all save strategies",
  "Watcher tests perform one operation and look at one event; how a burst of operations is turned into document changes depends on when the notifications are handled.",
  [D+"watcher.rs", D+"daemon.rs", D+"document.rs", "book/src/features.md"],
  [("notifications are mapped to created/changed/removed", D+"watcher.rs next"),
   ("the difference between the file and the document is applied", D+"daemon.rs handle_watcher_event; document.rs update_text")],
  [("out_queue", "second half of a rename", D+"watcher.rs")],
  ["project directories of all peers"])
prop("P06", "After a restart the shared text matches the files",
  "When a daemon that shared a project before is started again, the files it finds in the directory are what it shares: changes, creations and deletions made while it was off reach the peers, and what peers changed in other places meanwhile is merged in rather than overwritten. A restart without changes on either side alters nothing anywhere.",
  ["histories", "inputs", "schedules"],
  "all histories of sharing, stopping, changing files on both sides while disconnected, and restarting in any order",
  "Tests read a directory into a fresh document once; no test stops and restarts a daemon.",
  [D+"daemon.rs", D+"document.rs"],
  [("load the persisted document and apply the difference to each file", D+"daemon.rs DocumentActor::new, read_current_content_from_dir"),
   ("files missing on disk are deleted from the document", D+"daemon.rs read_current_content_from_dir")],
  [(".ethersync/doc", "persisted document", D+"daemon.rs Persist")],
  ["project directories"])
prop("P07", "A crash at any point leaves a restartable, consistent project",
  "Whenever a daemon without open editors is killed, at any of its file-system operations, or one of those operations fails or is cut short, it can be started again on what is on disk, keeps its identity, and afterwards still synchronises with its peers: no file content that had reached the disk or a peer is lost or doubled. What was in the shared document at least a few seconds before the crash is still known after it.",
  ["crash_points", "fault_sequences", "histories"],
  "every file-system operation of the daemon as the crash point, including in the middle of a write; failing and short writes",
  "No test kills a daemon; the window between two system calls of one write cannot be hit by a test that only uses the public interface.",
  [D+"daemon.rs", D+"sandbox.rs", D+"document.rs", D+"peer.rs"],
  [("the document is saved completely once per run and incrementally after each change", D+"daemon.rs Persist, spawn_persister"),
   ("the key file is created once", D+"peer.rs get_keypair")],
  [(".ethersync/doc", "persisted document", D+"daemon.rs Persist"), (".ethersync/key", "identity", D+"peer.rs get_keypair"), ("save_fully", "next save rewrites the file", D+"daemon.rs")],
  ["daemon start", "project directories", ".ethersync/"])
prop("P08", "Deleted files stay deleted",
  "When a file of the project is deleted at one peer and nobody edits or recreates it, it disappears from every peer's directory within a bounded time and does not come back, neither through late notifications, messages that were in flight, reconnects nor restarts. Conversely a file that exists at a connected peer and that nobody deleted never disappears.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of deletion, recreation, rename and edits with notification delays, reconnects and restarts",
  "Tests delete one file in one process and look at one event; resurrection needs a particular crossing of a deletion with something else.",
  [D+"daemon.rs", D+"document.rs", D+"watcher.rs", D+"types.rs"],
  [("removal notifications delete the entry from the document", D+"daemon.rs handle_watcher_event Removed; document.rs remove_text"),
   ("a removal received from a peer deletes the file", D+"daemon.rs FileRemoval")],
  [],
  ["project directories"])
prop("P09", "Ignored files are never shared",
  "Nothing stored in files that the project ignores (the version-control and daemon-internal directories, anything excluded by ignore files) ever reaches another peer or the shared document, whether the file exists at start-up, is created, changed, renamed or opened in an editor later. Opening such a file from an editor is refused.",
  ["histories", "inputs", "schedules"],
  "all ignore patterns of a generated set, nested directories, all ways a file can come to the daemon's attention, renames across the ignore boundary",
  "Tests cover one pattern and one file with one event each; the separate code paths (start-up scan, watcher, editor) have to agree for every history.",
  [D+"sandbox.rs", D+"daemon.rs", D+"watcher.rs", D+"editor_connection.rs"],
  [("start-up scan skips ignored entries", D+"daemon.rs build_walk"), ("watcher and editor check the ignore rules", D+"sandbox.rs ignored")],
  [],
  ["bytes persisted in the shared document", "directories of the other peers", "responses on the editor socket"])
prop("P10", "File access stays inside the project directory",
  "Whatever file names peers and editors use, and whatever symbolic links exist in the project, a daemon creates, writes, renames, deletes and reads only files inside its project directory (besides its own socket). An access that would leave the directory is refused and has no effect outside.",
  ["inputs", "histories", "configurations"],
  "all path shapes (absolute, dot-dot, empty components, links to files and directories inside and outside, dangling links) arriving from a peer's document or an editor's request",
  "Tests try a few fixed paths against one helper; the guarantee is about every path reaching any file operation.",
  [D+"sandbox.rs", D+"path.rs", D+"daemon.rs", D+"editor_connection.rs"],
  [("every path is canonicalised and compared with the project directory", D+"sandbox.rs check_inside_base_dir_and_canonicalize")],
  [],
  ["paths of all file-system calls of the daemon"])
prop("P11", "Only peers with the same secret get anything",
  "A daemon never exchanges any project content with a peer that was started with a different secret, in either direction, and an attempt to connect with a wrong secret neither stops it from serving the peers that have the right one nor changes anything on disk. Peers with the same secret do connect.",
  ["configurations", "schedules", "inputs"],
  "all assignments of secrets (equal, different, missing, differing in one character or in length) to the peers, in all connection orders",
  "No test starts two daemons with different secrets.",
  [D+"peer.rs"],
  [("the transport is wrapped in a pre-shared-key layer keyed by the stretched secret", D+"peer.rs run, passphrase_to_bytes")],
  [],
  ["project directories", "bytes on the simulated network"])
prop("P12", "Every editor request is answered once, and errors change nothing",
  "Each request an editor sends gets exactly one response carrying its id, in the order of the requests, and no response is sent for notifications. A request that is answered with an error (malformed text, unknown method, file outside the project, ignored file, edit of a file that is not open) has no effect on any text or any other connection, and the connection stays usable.",
  ["inputs", "histories", "schedules"],
  "all sequences of valid and invalid requests, split across reads at arbitrary byte positions, from several editors at once",
  "Tests parse and print single messages; they do not run sequences through a connection, nor mix in errors.",
  [D+"daemon.rs", D+"editor.rs", D+"types.rs", D+"editor_connection.rs"],
  [("each line is parsed and answered in the document task", D+"daemon.rs handle_message_from_editor"), ("lines are reassembled from the byte stream", D+"editor.rs spawn_editor_connection")],
  [],
  ["messages on the editor socket", "project directories"])
prop("P13", "Participants that come, stall or vanish do not harm the others",
  "A daemon keeps running and keeps serving its other editors and peers when an editor or peer disconnects, dies or stops reading at any moment, when a connection attempt is abandoned half-way, and when two peers have much to tell each other at the same time. New peers and editors can connect at any later time and are brought up to date.",
  ["schedules", "fault_sequences", "crash_points"],
  "every point of connection set-up, synchronisation and editing as the moment of the disconnect, for editors and peers; any number of reconnects; large amounts of data in both directions",
  "Tests never disconnect anything in the middle of an exchange.",
  [D+"peer.rs", D+"editor.rs", D+"daemon.rs"],
  [("each peer and editor connection runs in its own task", D+"peer.rs spawn_peer_sync; editor.rs spawn_editor_connection"),
   ("an editor that cannot be written to is removed", D+"daemon.rs send_to_editor_client")],
  [("editor_connections", "live editors", D+"daemon.rs")],
  ["daemon liveness", "project directories", "messages on the editor socket"])
prop("P14", "Everybody sees the latest cursors, and only of those present",
  "Once things are quiet, each connected editor that was connected all along has been told, as the last word about every other editor, the position that editor last reported together with the file it belongs to, and an empty position if that editor has disconnected from a daemon that kept running. An editor is never told about its own cursor, and cursors never change any file.",
  ["schedules", "histories"],
  "all interleavings of cursor moves, edits and disconnects of editors at several peers with message delays",
  "No test follows a cursor through two daemons.",
  [D+"daemon.rs", D+"document.rs", D+"types.rs", D+"editor_connection.rs"],
  [("cursor states are stored in the shared document per editor", D+"document.rs store_cursor_position"), ("closing a connection stores an empty position", D+"daemon.rs CloseEditorConnection")],
  [],
  ["cursor messages on the editor sockets"])
prop("P15", "The editor bridge passes every message through exactly once, in order",
  "The program an editor starts to reach the daemon delivers each message from its input to the daemon and each message of the daemon to its output unchanged, exactly once and in order, however the bytes are split into reads and writes, and it ends when either side closes, after having passed on the complete messages that side sent before.",
  ["inputs", "schedules"],
  "all message sequences (any size, multi-byte characters, headers with further fields in any order, messages without headers), all splits of the byte streams, all closing orders",
  "There is one test starting the executable; none for split headers or bodies.",
  [D+"jsonrpc_forwarder.rs"],
  [("a codec reassembles header and body", D+"jsonrpc_forwarder.rs ContentLengthCodec")],
  [],
  ["bytes on standard output and on the socket"])
prop("P16", "The Neovim plugin keeps its buffer in step with the daemon",
  "For every interleaving of editing commands in one or several buffers with edits delivered by the daemon, the edits the plugin reports for a file, applied in order to the text it opened, produce that buffer's text; every daemon edit whose revision matches is applied exactly, and others are ignored. After all messages are delivered, each buffer and the daemon's text of that file are equal, also after closing and opening files again.",
  ["schedules", "inputs", "histories"],
  "all sequences of editing commands and daemon edits, in every order of delivery, over multi-byte and multi-line texts, with and without a final newline",
  "The plugin tests run fixed single changes and compare one delta.",
  ["vim-plugin/plugin/ethersync.lua", "vim-plugin/lua/changetracker.lua", "vim-plugin/lua/utils.lua"],
  [("changes are computed from buffer-update callbacks", "vim-plugin/lua/changetracker.lua"), ("revisions are counted per file", "vim-plugin/plugin/ethersync.lua")],
  [("editor_revision / daemon_revision", "per file", "vim-plugin/plugin/ethersync.lua")],
  ["messages the plugin sends", "buffer lines"])
prop("P17", "The VS Code plugin keeps its document in step with the daemon",
  "For every interleaving of user edits with edits delivered by the daemon and with accepted or rejected edit applications by the editor, the edits the plugin reports, applied in order, produce the document's text, and daemon edits are applied exactly if their revision matches. After all messages are delivered, document and daemon text are equal.",
  ["schedules", "inputs", "histories"],
  "all interleavings of change events, asynchronous edit applications and daemon messages, over texts with characters outside the basic plane",
  "The VS Code plugin has no tests in the repository's suite.",
  ["vscode-plugin/src/extension.ts"],
  [("remote edits are recognised and not sent back", "vscode-plugin/src/extension.ts isRemoteEdit"), ("a mutex orders change events and remote edits", "vscode-plugin/src/extension.ts processEditFromDaemon")],
  [],
  ["requests the plugin sends", "document text"])
prop("P18", "Private material stays private and the identity stays the same",
  "A daemon creates its key readable by its user only, uses the same identity in every later run, never uses a key file that others can access, and never offers its editor socket in a directory that others can access.",
  ["configurations", "histories", "crash_points"],
  "all permission bits on key file and socket directory; all sequences of starts and crashes",
  "Tests do not touch key or socket permissions.",
  [D+"peer.rs", D+"editor.rs"],
  [("permission checks before use", D+"peer.rs get_keypair; editor.rs is_user_readable_only")],
  [(".ethersync/key", "identity", D+"peer.rs")],
  ["mode and content of the key file", "whether a socket is offered", "identity seen by peers"])
