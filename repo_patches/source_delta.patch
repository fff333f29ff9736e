From d0a23696bdc988b4bbae8b1718543b78bd18ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:27 +0000
Subject: [PATCH 01/43] fix: keep the shared text in line with the disk when
 file events arrive late

A creation event for a file that was already known was ignored, so a file
that had been replaced kept its old shared text. A removal event for a file
that had been created again meanwhile removed it from the shared project.
Together with the daemon's own writes the latter could turn into an endless
loop of removing and creating the file.

Look at the disk when an event is handled: a creation updates the shared
text, and a removal counts only while the file is really gone.
---
 daemon/src/daemon.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 1fffef0..82a4b44 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -362,27 +362,22 @@ impl DocumentActor {
                 let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                     .expect("Watcher event should have a path within the base directory");
                 if self.owns(&relative_file_path) {
-                    if !self.crdt_doc.file_exists(&relative_file_path) {
-                        let content = match sandbox::read_file(
-                            &self.base_dir,
-                            Path::new(&file_path),
-                        ) {
-                            Ok(content) => content,
-                            Err(e) => {
-                                warn!(
-                                    "The file watcher noticed a file creation for {relative_file_path}, \
+                    let content = match sandbox::read_file(&self.base_dir, Path::new(&file_path)) {
+                        Ok(content) => content,
+                        Err(e) => {
+                            warn!(
+                                "The file watcher noticed a file creation for {relative_file_path}, \
                                     but we couldn't read it: {e} (probably it disappeared again already?)"
-                                );
-                                return;
-                            }
-                        };
-                        if let Ok(content) = String::from_utf8(content) {
-                            self.crdt_doc.initialize_text(&content, &relative_file_path);
-                        } else {
-                            warn!("Ignoring newly created non-UTF-8 file {relative_file_path}");
+                            );
+                            return;
                         }
+                    };
+                    if let Ok(content) = String::from_utf8(content) {
+                        // The file might already exist in the CRDT, for example if an existing
+                        // file was replaced by a new one. So this is an update.
+                        self.crdt_doc.update_text(&content, &relative_file_path);
                     } else {
-                        debug!("Received watcher creation event, but file already exists in CRDT.")
+                        warn!("Ignoring newly created non-UTF-8 file {relative_file_path}");
                     }
                     let _ = self.doc_changed_ping_tx.send(());
                 }
@@ -391,6 +386,10 @@ impl DocumentActor {
                 let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                     .expect("Watcher event should have a path within the base directory");
                 if self.owns(&relative_file_path) {
+                    if sandbox::exists(&self.base_dir, &file_path).unwrap_or(false) {
+                        debug!("{relative_file_path} was removed, but it exists again already.");
+                        return;
+                    }
                     self.crdt_doc.remove_text(&relative_file_path);
                     let _ = self.doc_changed_ping_tx.send(());
                 }
-- 
2.43.0


From 5d198f633cb8c527a55a294961ddbe7f8bb632cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:12 +0000
Subject: [PATCH 02/43] fix: notice files that are moved into or out of the
 project

Only the event that combines both halves of a rename was handled. The system
reports just one half when the other end lies outside of the watched
directory, so moving a file in or out went unnoticed, as did editors and
tools that save by renaming a new file over the old one from elsewhere.
Handle the two halves instead of the combination.

Events without a path, as they occur after a directory was moved, made the
daemon exit. Skip them.
---
 daemon/src/watcher.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/daemon/src/watcher.rs b/daemon/src/watcher.rs
index ab4ef68..64f81ef 100644
--- a/daemon/src/watcher.rs
+++ b/daemon/src/watcher.rs
@@ -63,38 +63,41 @@ impl Watcher {
             // Otherwise, wait for the next event from the watcher.
             let event = self.notify_receiver.recv().await.unwrap().unwrap();
 
+            // Some events come without a path, for example when a directory was moved away.
+            let Some(path) = event.paths.first() else {
+                debug!("Ignoring event without a path: {event:?}");
+                continue;
+            };
+
             match event.kind {
                 EventKind::Create(notify::event::CreateKind::File) => {
-                    assert!(event.paths.len() == 1);
-                    if let Some(e) = self.maybe_created(&event.paths[0]) {
+                    if let Some(e) = self.maybe_created(path) {
                         return Some(e);
                     }
                 }
                 EventKind::Remove(notify::event::RemoveKind::File) => {
-                    assert!(event.paths.len() == 1);
-                    if let Some(e) = self.maybe_removed(&event.paths[0]) {
+                    if let Some(e) = self.maybe_removed(path) {
                         return Some(e);
                     }
                 }
                 EventKind::Modify(notify::event::ModifyKind::Data(_)) => {
-                    assert!(event.paths.len() == 1);
-                    if let Some(e) = self.maybe_modified(&event.paths[0]) {
+                    if let Some(e) = self.maybe_modified(path) {
                         return Some(e);
                     }
                 }
+                // A rename is reported in two halves. If the file was moved into the directory or
+                // out of it, there's only one of them.
                 EventKind::Modify(notify::event::ModifyKind::Name(
-                    notify::event::RenameMode::Both,
+                    notify::event::RenameMode::From,
                 )) => {
-                    assert!(event.paths.len() == 2);
-                    let removed = self.maybe_removed(&event.paths[0]);
-                    let created = self.maybe_created(&event.paths[1]);
-
-                    // Queue the create event for later, return the remove event.
-                    if let Some(e) = created {
-                        self.out_queue.push_back(e);
+                    if let Some(e) = self.maybe_removed(path) {
+                        return Some(e);
                     }
-
-                    if let Some(e) = removed {
+                }
+                EventKind::Modify(notify::event::ModifyKind::Name(
+                    notify::event::RenameMode::To,
+                )) => {
+                    if let Some(e) = self.maybe_created(path) {
                         return Some(e);
                     }
                 }
@@ -103,14 +106,13 @@ impl Watcher {
                 EventKind::Modify(notify::event::ModifyKind::Name(
                     notify::event::RenameMode::Any,
                 )) => {
-                    assert!(event.paths.len() == 1);
-                    if sandbox::exists(&self.base_dir, &event.paths[0])
+                    if sandbox::exists(&self.base_dir, path)
                         .expect("Could not check existence of file")
                     {
-                        if let Some(e) = self.maybe_created(&event.paths[0]) {
+                        if let Some(e) = self.maybe_created(path) {
                             return Some(e);
                         }
-                    } else if let Some(e) = self.maybe_removed(&event.paths[0]) {
+                    } else if let Some(e) = self.maybe_removed(path) {
                         return Some(e);
                     }
                 }
-- 
2.43.0


From 18a5c3dd638841fce5cf30e7c210186177433339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:58 +0000
Subject: [PATCH 03/43] fix: notice files in directories that appear with
 content

A new directory is watched only some time after it was created. Files that
were put into it before that moment, or that came with a directory that was
moved into the project, went unnoticed. Start watching such a directory right
away and then look at what it contains.
---
 daemon/src/watcher.rs | 48 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/daemon/src/watcher.rs b/daemon/src/watcher.rs
index 64f81ef..176d444 100644
--- a/daemon/src/watcher.rs
+++ b/daemon/src/watcher.rs
@@ -4,6 +4,7 @@
 // SPDX-License-Identifier: AGPL-3.0-or-later
 
 use crate::sandbox;
+use ignore::WalkBuilder;
 use notify::{
     event::EventKind, RecommendedWatcher, RecursiveMode, Result as NotifyResult,
     Watcher as NotifyWatcher,
@@ -12,7 +13,7 @@ use std::{
     collections::VecDeque,
     path::{Path, PathBuf},
 };
-use tokio::sync::mpsc::{self, Receiver};
+use tokio::sync::mpsc::{self, UnboundedReceiver};
 use tracing::debug;
 
 #[derive(Debug, PartialEq)]
@@ -24,19 +25,20 @@ pub enum WatcherEvent {
 
 /// Returns events among the files in base_dir that are not ignored.
 pub struct Watcher {
-    _watcher: RecommendedWatcher,
+    watcher: RecommendedWatcher,
     base_dir: PathBuf,
-    notify_receiver: Receiver<NotifyResult<notify::Event>>,
+    notify_receiver: UnboundedReceiver<NotifyResult<notify::Event>>,
     out_queue: VecDeque<WatcherEvent>,
 }
 
 impl Watcher {
     pub fn new(dir: &Path) -> Self {
-        let (tx, rx) = mpsc::channel(1);
+        // This channel must not make the watcher's thread wait for us, because we wait for that
+        // thread when we add another watch.
+        let (tx, rx) = mpsc::unbounded_channel();
         let mut watcher = notify::recommended_watcher(move |res: NotifyResult<notify::Event>| {
-            futures::executor::block_on(async {
-                tx.send(res).await.unwrap();
-            });
+            // Sending can only fail when we are shutting down.
+            let _ = tx.send(res);
         })
         .expect("Could not construct watcher");
 
@@ -45,8 +47,7 @@ impl Watcher {
             .expect("Failed to watch directory");
 
         Self {
-            // Keep the watcher, so that it's not dropped.
-            _watcher: watcher,
+            watcher,
             base_dir: dir.to_path_buf(),
             notify_receiver: rx,
             out_queue: VecDeque::new(),
@@ -75,6 +76,10 @@ impl Watcher {
                         return Some(e);
                     }
                 }
+                EventKind::Create(notify::event::CreateKind::Folder) => {
+                    let path = path.clone();
+                    self.queue_files_in(&path);
+                }
                 EventKind::Remove(notify::event::RemoveKind::File) => {
                     if let Some(e) = self.maybe_removed(path) {
                         return Some(e);
@@ -97,6 +102,11 @@ impl Watcher {
                 EventKind::Modify(notify::event::ModifyKind::Name(
                     notify::event::RenameMode::To,
                 )) => {
+                    if path.is_dir() {
+                        let path = path.clone();
+                        self.queue_files_in(&path);
+                        continue;
+                    }
                     if let Some(e) = self.maybe_created(path) {
                         return Some(e);
                     }
@@ -126,6 +136,26 @@ impl Watcher {
         }
     }
 
+    /// New directories can already contain files before they are being watched. There won't be
+    /// any events for these, so we have to look for them.
+    fn queue_files_in(&mut self, dir: &Path) {
+        if let Err(error) = self.watcher.watch(dir, RecursiveMode::Recursive) {
+            debug!("Failed to watch '{}': {error}", dir.display());
+            return;
+        }
+        for dir_entry in WalkBuilder::new(dir)
+            .standard_filters(false)
+            .build()
+            .filter_map(Result::ok)
+        {
+            if dir_entry.file_type().is_some_and(|t| t.is_file()) {
+                if let Some(e) = self.maybe_created(dir_entry.path()) {
+                    self.out_queue.push_back(e);
+                }
+            }
+        }
+    }
+
     fn maybe_created(&self, file_path: &Path) -> Option<WatcherEvent> {
         match sandbox::ignored(&self.base_dir, file_path) {
             Ok(is_ignored) => {
-- 
2.43.0


From af3cc0ebb04d099864a29c3fe00d972dfa486b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:39 +0000
Subject: [PATCH 04/43] fix: treat files of a directory that was moved away as
 removed

When a directory was moved out of the project or renamed, only an event for
the directory itself arrived, and the files in it stayed in the shared
project.
---
 daemon/src/daemon.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 82a4b44..6f8add2 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -383,12 +383,19 @@ impl DocumentActor {
                 }
             }
             WatcherEvent::Removed { file_path } => {
-                let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
+                let relative_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                     .expect("Watcher event should have a path within the base directory");
-                if self.owns(&relative_file_path) {
-                    if sandbox::exists(&self.base_dir, &file_path).unwrap_or(false) {
+                // If a directory was moved away, this is about all files in it.
+                for relative_file_path in self.crdt_doc.files() {
+                    if !relative_file_path.starts_with(&relative_path)
+                        || !self.owns(&relative_file_path)
+                    {
+                        continue;
+                    }
+                    let absolute_file_path = self.absolute_path_for_file_path(&relative_file_path);
+                    if sandbox::exists(&self.base_dir, &absolute_file_path).unwrap_or(false) {
                         debug!("{relative_file_path} was removed, but it exists again already.");
-                        return;
+                        continue;
                     }
                     self.crdt_doc.remove_text(&relative_file_path);
                     let _ = self.doc_changed_ping_tx.send(());
-- 
2.43.0


From 0718dd28c8f4f54ef71f8097397227f0b68b91da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:42 +0000
Subject: [PATCH 05/43] fix: survive messages from and to editors that are gone

The daemon panicked when a message of an editor was processed, or another
message was to be sent to it, after sending to it had failed once.
---
 daemon/src/daemon.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 6f8add2..a81a894 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -313,6 +313,11 @@ impl DocumentActor {
     }
 
     async fn handle_message_from_editor(&mut self, editor_id: EditorId, message: String) {
+        if !self.editor_connections.contains_key(&editor_id) {
+            debug!("Ignoring message from editor #{editor_id}, which is gone already.");
+            return;
+        }
+
         match JSONRPCFromEditor::from_jsonrpc(&message) {
             Ok(parsed_message) => match parsed_message {
                 JSONRPCFromEditor::Request { id, payload } => {
@@ -473,10 +478,10 @@ impl DocumentActor {
     }
 
     async fn send_to_editor_client(&mut self, editor_id: &EditorId, message: EditorProtocolObject) {
-        let connection = self
-            .editor_connections
-            .get_mut(editor_id)
-            .expect("Could not get editor handle");
+        let Some(connection) = self.editor_connections.get_mut(editor_id) else {
+            debug!("Not sending message to editor #{editor_id}, which is gone already.");
+            return;
+        };
 
         connection.1.send(message).await.unwrap_or_else(|err| {
             error!("Failed to send message to editor: {err} Removing editor.");
-- 
2.43.0


From 05a9b06c12ef57796daac7d75b8f21a5bdc6e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:27 +0000
Subject: [PATCH 06/43] fix: write files to disk when their editor disconnects

An editor that vanished without closing its files left them on disk in the
state from before it had opened them.
---
 daemon/src/daemon.rs            | 17 +++++++++++++----
 daemon/src/editor_connection.rs |  4 ++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index a81a894..c56c261 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -269,7 +269,7 @@ impl DocumentActor {
                 );
             }
             DocMessage::CloseEditorConnection(editor_id) => {
-                self.editor_connections.remove(&editor_id);
+                self.remove_editor(&editor_id);
 
                 let cursor_id = self.cursor_id(editor_id);
                 debug!("Deleting cursor {cursor_id}");
@@ -483,10 +483,19 @@ impl DocumentActor {
             return;
         };
 
-        connection.1.send(message).await.unwrap_or_else(|err| {
+        if let Err(err) = connection.1.send(message).await {
             error!("Failed to send message to editor: {err} Removing editor.");
-            self.editor_connections.remove(editor_id);
-        });
+            self.remove_editor(editor_id);
+        }
+    }
+
+    /// We are responsible again for the files that only this editor had open.
+    fn remove_editor(&mut self, editor_id: &EditorId) {
+        if let Some((connection, _)) = self.editor_connections.remove(editor_id) {
+            for file_path in connection.open_files() {
+                self.maybe_write_file(file_path);
+            }
+        }
     }
 
     fn maybe_write_files_changed_in_file_deltas(&mut self, file_deltas: &Vec<FileTextDelta>) {
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index a8b2308..cc34c1b 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -41,6 +41,10 @@ impl EditorConnection {
         self.ot_servers.contains_key(file_path)
     }
 
+    pub fn open_files(&self) -> impl Iterator<Item = &RelativePath> {
+        self.ot_servers.keys()
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
-- 
2.43.0


From e3d2bb70233e35b4f3270de53ba15682bfd2a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:37 +0000
Subject: [PATCH 07/43] fix: bring an editor and the shared text in line when a
 file is opened

The file on disk can differ from the shared text at that moment: a change by
another program might not have been noticed yet, or another editor might have
edited the file without saving. Edits were then applied to the wrong text,
which made texts drift apart and the daemon panic. A file that was not shared
yet was shared as an empty file.
---
 daemon/src/daemon.rs            | 65 +++++++++++++++++++++++++++++----
 daemon/src/editor_connection.rs |  6 +++
 2 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index c56c261..25b8819 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -287,6 +287,12 @@ impl DocumentActor {
         editor_id: EditorId,
         message: &EditorProtocolMessageFromEditor,
     ) -> Result<(), EditorProtocolMessageError> {
+        let files_in_editors: HashSet<RelativePath> = self
+            .editor_connections
+            .values()
+            .flat_map(|connection| connection.0.open_files().cloned())
+            .collect();
+
         let (inside_message, messages_to_editor) = self
             .editor_connections
             .get_mut(&editor_id)
@@ -294,7 +300,20 @@ impl DocumentActor {
             .0
             .message_from_editor(message)?;
 
-        self.inside_message_to_doc(&inside_message).await;
+        match &inside_message {
+            ComponentMessage::Open { file_path } if files_in_editors.contains(file_path) => {
+                // The file on disk might be older than what is being edited.
+                self.bring_editor_up_to_date(&editor_id, file_path).await;
+            }
+            ComponentMessage::Open { file_path } => {
+                // The editor starts with what is on disk, maybe before we noticed a change to it.
+                if let Some(content) = self.content_in_editor(&editor_id, file_path) {
+                    self.crdt_doc.update_text(&content, file_path);
+                    let _ = self.doc_changed_ping_tx.send(());
+                }
+            }
+            _ => self.inside_message_to_doc(&inside_message).await,
+        }
         self.broadcast_to_editors(Some(editor_id), &inside_message)
             .await;
         for message_to_editor in messages_to_editor {
@@ -606,13 +625,8 @@ impl DocumentActor {
 
     async fn inside_message_to_doc(&mut self, message: &ComponentMessage) {
         match message {
-            ComponentMessage::Open { file_path } => {
-                self.current_file_content(file_path).unwrap_or_else(|_| {
-                    // The file doesn't exist yet - create it in the Automerge document.
-                    let text = String::new();
-                    self.crdt_doc.initialize_text(&text, file_path);
-                    text
-                });
+            ComponentMessage::Open { .. } => {
+                // This was handled already, because it depends on the editor.
             }
             ComponentMessage::Close { file_path } => {
                 self.maybe_write_file(file_path);
@@ -667,6 +681,41 @@ impl DocumentActor {
         }
     }
 
+    /// The content the editor will have after processing everything we have sent to it.
+    fn content_in_editor(
+        &mut self,
+        editor_id: &EditorId,
+        file_path: &RelativePath,
+    ) -> Option<String> {
+        let connection = self.editor_connections.get_mut(editor_id)?;
+        connection.0.content(file_path)
+    }
+
+    /// Sends the editor what's missing from the file it has open.
+    async fn bring_editor_up_to_date(&mut self, editor_id: &EditorId, file_path: &RelativePath) {
+        let (Some(content), Ok(desired_content)) = (
+            self.content_in_editor(editor_id, file_path),
+            self.current_file_content(file_path),
+        ) else {
+            return;
+        };
+        if content == desired_content {
+            return;
+        }
+
+        let message = ComponentMessage::Edit {
+            file_path: file_path.clone(),
+            delta: dissimilar::diff(&content, &desired_content).into(),
+        };
+        let Some(connection) = self.editor_connections.get_mut(editor_id) else {
+            return;
+        };
+        for message_to_editor in connection.0.message_from_daemon(&message) {
+            self.send_to_editor_client(editor_id, EditorProtocolObject::Request(message_to_editor))
+                .await;
+        }
+    }
+
     async fn maybe_delete_cursor_position(&mut self, cursor_id: &str) {
         self.crdt_doc.maybe_delete_cursor_position(cursor_id);
         let _ = self.doc_changed_ping_tx.send(());
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index cc34c1b..a5f3116 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -45,6 +45,12 @@ impl EditorConnection {
         self.ot_servers.keys()
     }
 
+    pub fn content(&mut self, file_path: &RelativePath) -> Option<String> {
+        self.ot_servers
+            .get_mut(file_path)
+            .map(|ot_server| ot_server.current_content())
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
-- 
2.43.0


From 8bd2a3a25297798516e2e8442277402a911a2220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:08 +0000
Subject: [PATCH 08/43] fix: let an edit bring back a file that was deleted
 while open

The daemon panicked when a peer or another program deleted a file that was
open in an editor, and the editor then edited it. A file that was only saved
again stayed on disk without being shared.
---
 daemon/src/daemon.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 25b8819..6e255ef 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -312,6 +312,16 @@ impl DocumentActor {
                     let _ = self.doc_changed_ping_tx.send(());
                 }
             }
+            ComponentMessage::Edit { file_path, .. } if !self.crdt_doc.file_exists(file_path) => {
+                // Somebody has deleted the file in the meantime. The edit brings it back.
+                if let Some(content) = self.content_in_editor(&editor_id, file_path) {
+                    self.crdt_doc.initialize_text(&content, file_path);
+                    let _ = self.doc_changed_ping_tx.send(());
+                }
+            }
+            ComponentMessage::Close { file_path } if files_in_editors.contains(file_path) => {
+                self.let_go_of_file(file_path);
+            }
             _ => self.inside_message_to_doc(&inside_message).await,
         }
         self.broadcast_to_editors(Some(editor_id), &inside_message)
@@ -512,11 +522,28 @@ impl DocumentActor {
     fn remove_editor(&mut self, editor_id: &EditorId) {
         if let Some((connection, _)) = self.editor_connections.remove(editor_id) {
             for file_path in connection.open_files() {
-                self.maybe_write_file(file_path);
+                self.let_go_of_file(file_path);
             }
         }
     }
 
+    /// To be called after an editor stopped editing the file.
+    fn let_go_of_file(&mut self, file_path: &RelativePath) {
+        if self.owns(file_path) && !self.crdt_doc.file_exists(file_path) {
+            // Somebody has deleted the file while it was open. If it was saved again after that,
+            // share it again.
+            let abs_path = self.absolute_path_for_file_path(file_path);
+            if let Ok(Ok(text)) =
+                sandbox::read_file(&self.base_dir, &abs_path).map(String::from_utf8)
+            {
+                self.crdt_doc.initialize_text(&text, file_path);
+                let _ = self.doc_changed_ping_tx.send(());
+            }
+        } else {
+            self.maybe_write_file(file_path);
+        }
+    }
+
     fn maybe_write_files_changed_in_file_deltas(&mut self, file_deltas: &Vec<FileTextDelta>) {
         // Collect file paths into a set, so we don't write files multiple times on complex
         // patches.
-- 
2.43.0


From 8a7c673fac5c60df25a1c10b1776e7fbce4b571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:38 +0000
Subject: [PATCH 09/43] fix: send editors the new text when a file they have
 open is replaced

When a peer recreated a file, or two peers created the same file at the same
time, the changes were sent to editors that still had the other text, so that
the texts drifted apart.
---
 daemon/src/daemon.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 6e255ef..7966c64 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -227,7 +227,25 @@ impl DocumentActor {
                 }
 
                 self.maybe_write_files_changed_in_file_deltas(&file_deltas);
+                // An empty delta means that the file was created. If it existed before, it has been
+                // replaced, and the deltas don't apply to the text the editors have.
+                let mut replaced_files: Vec<RelativePath> = vec![];
                 for file_text_delta in &file_deltas {
+                    if file_text_delta.delta.0.is_empty() {
+                        replaced_files.push(file_text_delta.file_path.clone());
+                    }
+                }
+                for file_path in &replaced_files {
+                    let editor_ids: Vec<EditorId> =
+                        self.editor_connections.keys().cloned().collect();
+                    for editor_id in editor_ids {
+                        self.bring_editor_up_to_date(&editor_id, file_path).await;
+                    }
+                }
+                for file_text_delta in &file_deltas {
+                    if replaced_files.contains(&file_text_delta.file_path) {
+                        continue;
+                    }
                     let message = ComponentMessage::Edit {
                         file_path: file_text_delta.file_path.clone(),
                         delta: file_text_delta.delta.clone(),
-- 
2.43.0


From e6ebcaf324b9564d8e023499cd13c196484544ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:05 +0000
Subject: [PATCH 10/43] fix: ignore changes to texts that lost a conflict

When several peers had created the same file, edits of the text that lost were
sent to editors showing the one that won. The daemon panicked when they did not
fit.
---
 daemon/src/document.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 038c294..10f4714 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -76,7 +76,20 @@ impl Document {
             .sync()
             .receive_sync_message_log_patches(peer_state, message, &mut patch_log)
             .expect("Failed to apply sync message to Automerge document");
-        self.doc.make_patches(&mut patch_log)
+        let mut patches = self.doc.make_patches(&mut patch_log);
+        // If several peers have created the same file, there are also patches for the texts that
+        // have lost the conflict.
+        patches.retain(|patch| self.is_about_current_object(patch));
+        patches
+    }
+
+    fn is_about_current_object(&self, patch: &Patch) -> bool {
+        match patch.path.last() {
+            Some((parent, prop)) => {
+                matches!(self.doc.get(parent, prop.clone()), Ok(Some((_, obj))) if obj == patch.obj)
+            }
+            None => true,
+        }
     }
 
     pub fn generate_sync_message(
-- 
2.43.0


From a87193c5de0fc9fdf2dc5799ce3ae5556a4bc548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:00 +0000
Subject: [PATCH 11/43] fix: notice files that vanish from a new directory
 before it is watched

---
 daemon/src/watcher.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/daemon/src/watcher.rs b/daemon/src/watcher.rs
index 176d444..21d86f3 100644
--- a/daemon/src/watcher.rs
+++ b/daemon/src/watcher.rs
@@ -136,13 +136,17 @@ impl Watcher {
         }
     }
 
-    /// New directories can already contain files before they are being watched. There won't be
-    /// any events for these, so we have to look for them.
+    /// New directories can already contain files before they are being watched, and files can
+    /// already be gone from them again. There won't be any events for these, so we have to look
+    /// for them.
     fn queue_files_in(&mut self, dir: &Path) {
         if let Err(error) = self.watcher.watch(dir, RecursiveMode::Recursive) {
             debug!("Failed to watch '{}': {error}", dir.display());
             return;
         }
+        if let Some(e) = self.maybe_removed(dir) {
+            self.out_queue.push_back(e);
+        }
         for dir_entry in WalkBuilder::new(dir)
             .standard_filters(false)
             .build()
-- 
2.43.0


From f191bab9987fbe39594ccc58660502c992ed6d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:45 +0000
Subject: [PATCH 12/43] fix: read and write sync messages independently of each
 other

A message that had only been read in part got lost when there was something to
write at the same moment, after which the two peers did not understand each
other any more. Two peers that both had much to write could also block each
other forever.
---
 daemon/src/peer.rs | 70 +++++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 10897a4..141c749 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -6,8 +6,9 @@
 //! A peer is another daemon. This module is all about daemon to daemon communication.
 
 use crate::daemon::{DocMessage, DocumentActorHandle};
-use anyhow::{Context, Result};
+use anyhow::{bail, Context, Result};
 use automerge::sync::{Message as AutomergeSyncMessage, State as SyncState};
+use futures::io::{ReadHalf, WriteHalf};
 use futures::StreamExt;
 use futures::{AsyncReadExt, AsyncWriteExt};
 use ini::Ini;
@@ -291,43 +292,48 @@ impl P2PActor {
 
     /// Core low-level syncing protocol.
     async fn protocol_handler(
-        mut stream: Stream,
+        stream: Stream,
+        from_peer_tx: mpsc::Sender<AutomergeSyncMessage>,
+        to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
+    ) -> Result<()> {
+        // Reading and writing happen independently of each other, so that no half-read message
+        // gets lost when there's something to write, and so that two peers can't block each other
+        // by writing at the same time.
+        let (reader, writer) = stream.split();
+        tokio::try_join!(
+            Self::read_messages(reader, from_peer_tx),
+            Self::write_messages(writer, to_peer_rx),
+        )?;
+        Ok(())
+    }
+
+    async fn read_messages(
+        mut reader: ReadHalf<Stream>,
         from_peer_tx: mpsc::Sender<AutomergeSyncMessage>,
-        mut to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
     ) -> Result<()> {
         loop {
             let mut message_len_buf = [0; 4];
+            reader.read_exact(&mut message_len_buf).await?;
+            let message_len = u32::from_be_bytes(message_len_buf);
+            let mut message_buf = vec![0; message_len as usize];
+            reader.read_exact(&mut message_buf).await?;
 
-            tokio::select! {
-                message_maybe = to_peer_rx.recv() => {
-                    match message_maybe {
-                        Some(message) => {
-                            let message = message.encode();
-                            let message_len = u32::try_from(message.len());
-                            stream
-                                .write_all(&message_len?.to_be_bytes())
-                                .await?;
-                            stream
-                                .write_all(&message)
-                                .await?;
-                            }
-                        None => {
-                            // TODO: What should we do?
-                            error!("None on to_peer_rx");
-                        }
-                    }
-                }
-                _ = stream.read_exact(&mut message_len_buf) => {
-                    let message_len = u32::from_be_bytes(message_len_buf);
-                    let mut message_buf = vec![0; message_len as usize];
-                    stream.read_exact(&mut message_buf).await?;
-
-                    let message =
-                        AutomergeSyncMessage::decode(&message_buf)?;
-                    from_peer_tx.send(message).await?;
-                }
-            }
+            let message = AutomergeSyncMessage::decode(&message_buf)?;
+            from_peer_tx.send(message).await?;
+        }
+    }
+
+    async fn write_messages(
+        mut writer: WriteHalf<Stream>,
+        mut to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
+    ) -> Result<()> {
+        while let Some(message) = to_peer_rx.recv().await {
+            let message = message.encode();
+            let message_len = u32::try_from(message.len());
+            writer.write_all(&message_len?.to_be_bytes()).await?;
+            writer.write_all(&message).await?;
         }
+        bail!("The syncer has stopped");
     }
 }
 
-- 
2.43.0


From 3113f1103145911dc7f6c05494adcf219292be89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:09 +0000
Subject: [PATCH 13/43] fix: keep accepting peers when one connects and does
 nothing

The daemon waited for every peer that had connected to open a stream, without
attending to anything else. A peer that vanished at that point kept all others
from ever connecting. On the connecting side, a failure at that point stopped
all networking.
---
 daemon/src/peer.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 141c749..eabf97b 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -160,7 +160,15 @@ impl P2PActor {
 
         // Poll the swarm to make progress.
         loop {
-            let event = swarm.next().await.expect("never terminates");
+            // A peer that has connected doesn't necessarily open a stream, so don't wait for that.
+            let event = tokio::select! {
+                event = swarm.next() => event.expect("never terminates"),
+                Some((peer, stream)) = incoming_streams.next() => {
+                    info!("Peer connected: {}", peer);
+                    self.spawn_peer_sync(stream);
+                    continue;
+                }
+            };
 
             match event {
                 libp2p::swarm::SwarmEvent::NewListenAddr { address, .. } => {
@@ -187,23 +195,18 @@ impl P2PActor {
                     ..
                 } => {
                     let mut control = swarm.behaviour().new_control();
-                    let stream = control
-                        .open_stream(peer_id, ETHERSYNC_PROTOCOL)
-                        .await
-                        .context("Failed to open stream")?;
-
-                    info!("Connected to peer {}", peer_id);
-
-                    self.spawn_peer_sync(stream);
-                }
-                libp2p::swarm::SwarmEvent::ConnectionEstablished {
-                    endpoint: ConnectedPoint::Listener { .. },
-                    ..
-                } => {
-                    if let Some((peer, stream)) = incoming_streams.next().await {
-                        info!("Peer connected: {}", peer);
-                        self.spawn_peer_sync(stream);
-                    }
+                    let actor = self.clone();
+                    tokio::spawn(async move {
+                        match control.open_stream(peer_id, ETHERSYNC_PROTOCOL).await {
+                            Ok(stream) => {
+                                info!("Connected to peer {}", peer_id);
+                                actor.spawn_peer_sync(stream);
+                            }
+                            Err(error) => {
+                                error!("Failed to open stream to peer {peer_id}: {error}");
+                            }
+                        }
+                    });
                 }
                 libp2p::swarm::SwarmEvent::OutgoingConnectionError { error, .. } => {
                     error!("Failed to connect, the peer multiaddress or secret you provided might be wrong?");
-- 
2.43.0


From e61584a5ab6da0321ba8db6c8480f484f88340f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:39 +0000
Subject: [PATCH 14/43] fix: count lines the way editors do

Positions in the editor protocol are line and character. The daemon also
ended lines at the less common characters that Unicode considers to be
line breaks (form feed, line separator and so on), but editors end them at
newlines only. As soon as a text contained such a character, edits landed
in the wrong place or made the daemon panic.
---
 daemon/src/types.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index 3916a9a..f1281ac 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -347,18 +347,37 @@ pub struct Position {
 impl Position {
     /// will panic when used with not matching offset/content
     fn from_offset(full_offset: usize, content: &str) -> Self {
+        // Editors only agree on "\n" being the end of a line, so we can't use the rope's lines here,
+        // which also end at the other characters that Unicode considers to be line breaks.
         let rope = Rope::from_str(content);
-        let line = rope.char_to_line(full_offset);
-        let character = full_offset - rope.line_to_char(line);
-        Self { line, character }
+        let (mut line, mut line_start) = (0, 0);
+        for (offset, character) in rope.slice(..full_offset).chars().enumerate() {
+            if character == '\n' {
+                line += 1;
+                line_start = offset + 1;
+            }
+        }
+        Self {
+            line,
+            character: full_offset - line_start,
+        }
     }
 
     fn to_offset(&self, content: &str) -> usize {
-        let rope = Rope::from_str(content);
-
-        assert!(self.character <= rope.line(self.line).len_chars());
+        self.try_to_offset(content)
+            .expect("Position should be inside the content")
+    }
 
-        rope.line_to_char(self.line) + self.character
+    /// Returns `None` if there's no such position in the content.
+    fn try_to_offset(&self, content: &str) -> Option<usize> {
+        let mut lines = content.split_inclusive('\n');
+        let mut line_start = 0;
+        for _ in 0..self.line {
+            let line = lines.next().filter(|line| line.ends_with('\n'))?;
+            line_start += line.chars().count();
+        }
+        let line_length = lines.next().unwrap_or("").chars().count();
+        (self.character <= line_length).then_some(line_start + self.character)
     }
 }
 
-- 
2.43.0


From 61cc22bc86dc44d952139327f363a0736410dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:21 +0000
Subject: [PATCH 15/43] fix: answer edits that can't be applied with an error

An editor could make the daemon panic by sending an edit based on a wrong
revision, with a position outside of the text, or with more than one
operation. Check for that before anything is changed, and refuse the edit.
---
 daemon/src/editor_connection.rs |  4 ++++
 daemon/src/ot.rs                | 20 ++++++++++++++++++++
 daemon/src/types.rs             | 19 +++++++++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index a5f3116..18cf0e1 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -207,6 +207,10 @@ impl EditorConnection {
                     delta: delta.clone(),
                 };
 
+                ot_server
+                    .check_editor_operation(&rev_delta)
+                    .map_err(anyhow_err_to_protocol_err)?;
+
                 let (delta_for_crdt, rev_deltas_for_editor) =
                     ot_server.apply_editor_operation(rev_delta.clone());
 
diff --git a/daemon/src/ot.rs b/daemon/src/ot.rs
index b49bb93..72d8149 100644
--- a/daemon/src/ot.rs
+++ b/daemon/src/ot.rs
@@ -6,6 +6,7 @@
 #![allow(dead_code)]
 
 use crate::types::{EditorTextDelta, RevisionedEditorTextDelta, RevisionedTextDelta, TextDelta};
+use anyhow::{bail, Result};
 use operational_transform::OperationSeq;
 use tracing::debug;
 
@@ -108,6 +109,25 @@ impl OTServer {
         }
     }
 
+    /// Checks whether an operation the editor has sent can be applied.
+    pub fn check_editor_operation(
+        &self,
+        rev_editor_delta: &RevisionedEditorTextDelta,
+    ) -> Result<()> {
+        let Some(unseen_operations) = self.daemon_revision.checked_sub(rev_editor_delta.revision)
+        else {
+            bail!("The edit is based on a revision that doesn't exist yet");
+        };
+        let Some(seen_operations) = self.editor_queue.len().checked_sub(unseen_operations) else {
+            bail!("The edit is based on a revision that was left behind by an earlier edit");
+        };
+        let mut content = self.last_confirmed_editor_content.clone();
+        for operation in &self.editor_queue[..seen_operations] {
+            content = Self::force_apply(&content, operation.clone());
+        }
+        rev_editor_delta.delta.check(&content)
+    }
+
     /// Called when the editor sends us an operation.
     /// daemonRevision is the revision this operation applies to.
     pub fn apply_editor_operation(
diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index f1281ac..913e61f 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -735,6 +735,25 @@ impl EditorTextDelta {
 
         Self(editor_ops)
     }
+
+    /// Checks whether the delta can be applied to the content.
+    pub fn check(&self, content: &str) -> Result<(), anyhow::Error> {
+        if self.0.len() > 1 {
+            bail!("Edits with multiple operations are not supported yet");
+        }
+        for op in &self.0 {
+            for position in [&op.range.start, &op.range.end] {
+                if position.try_to_offset(content).is_none() {
+                    bail!(
+                        "There's no line {}, character {} in the file",
+                        position.line,
+                        position.character
+                    );
+                }
+            }
+        }
+        Ok(())
+    }
 }
 
 pub mod factories {
-- 
2.43.0


From 8581aa37a8864cc8d83fb27648d5afe4e385e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:58 +0000
Subject: [PATCH 16/43] fix: answer invalid requests under their own ID

A request with an unknown method or wrong parameters was answered with an
ID of null, so that the editor couldn't tell which request had failed. A
request with an ID that isn't a number was carried out, but never answered.
---
 daemon/src/daemon.rs |  2 +-
 daemon/src/types.rs  | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 7966c64..f94fab1 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -394,7 +394,7 @@ impl DocumentActor {
             },
             Err(e) => {
                 let response = JSONRPCResponse::RequestError {
-                    id: None,
+                    id: JSONRPCFromEditor::id_from_jsonrpc(&message),
                     error: EditorProtocolMessageError {
                         code: -32700,
                         message: format!("Invalid request: {}", e),
diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index 913e61f..0247cb8 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -144,9 +144,21 @@ pub enum JSONRPCFromEditor {
 }
 impl JSONRPCFromEditor {
     pub fn from_jsonrpc(jsonrpc: &str) -> Result<Self, anyhow::Error> {
-        let message = serde_json::from_str(jsonrpc)?;
+        let value: serde_json::Value = serde_json::from_str(jsonrpc)?;
+        // Something with an ID we don't understand is still a request. Don't carry it out as if
+        // it was a notification, because nobody would ever answer it.
+        if value.get("id").is_some() && Self::id_from_jsonrpc(jsonrpc).is_none() {
+            bail!("The ID of a request must be a non-negative integer");
+        }
+        let message = serde_json::from_value(value)?;
         Ok(message)
     }
+
+    /// Tries to find out the ID of a request, even if the rest of it is invalid.
+    pub fn id_from_jsonrpc(jsonrpc: &str) -> Option<usize> {
+        let value: serde_json::Value = serde_json::from_str(jsonrpc).ok()?;
+        value.get("id")?.as_u64()?.try_into().ok()
+    }
 }
 
 #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
-- 
2.43.0


From 2c29926b12f37d8b360f677c8bc81b2e2489713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:34 +0000
Subject: [PATCH 17/43] fix: stay connected when an editor sends invalid UTF-8

The daemon closed the connection when a line was not valid UTF-8, without
telling the editor what was wrong. Treat it like any other invalid request.
---
 daemon/src/editor.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/daemon/src/editor.rs b/daemon/src/editor.rs
index fac0904..33fec57 100644
--- a/daemon/src/editor.rs
+++ b/daemon/src/editor.rs
@@ -8,19 +8,18 @@ use crate::daemon::{DocMessage, DocumentActorHandle};
 use crate::sandbox;
 use crate::types::EditorProtocolObject;
 use anyhow::{bail, Context, Result};
-use futures::StreamExt;
 use std::{
     fs, io,
     os::unix::fs::PermissionsExt,
     path::{Path, PathBuf},
 };
 use tokio::{
-    io::WriteHalf,
+    io::{AsyncBufReadExt, BufReader, WriteHalf},
     net::{UnixListener, UnixStream},
 };
 use tokio_util::{
     bytes::BytesMut,
-    codec::{Encoder, FramedRead, FramedWrite, LinesCodec},
+    codec::{Encoder, FramedWrite},
 };
 use tracing::info;
 
@@ -149,7 +148,7 @@ fn spawn_editor_connection(
 ) {
     tokio::spawn(async move {
         let (stream_read, stream_write) = tokio::io::split(stream);
-        let mut reader = FramedRead::new(stream_read, LinesCodec::new());
+        let mut reader = BufReader::new(stream_read);
         let writer = FramedWrite::new(stream_write, EditorProtocolCodec);
 
         document_handle
@@ -157,7 +156,15 @@ fn spawn_editor_connection(
             .await;
         info!("Client #{editor_id} connected");
 
-        while let Some(Ok(line)) = reader.next().await {
+        loop {
+            let mut line = vec![];
+            match reader.read_until(b'\n', &mut line).await {
+                Ok(0) | Err(_) => break,
+                Ok(_) => {}
+            }
+            // If it's not valid UTF-8, it's not a valid request. An empty line isn't either, so the
+            // editor will be told.
+            let line = String::from_utf8(line).unwrap_or_default();
             document_handle
                 .send_message(DocMessage::FromEditor(editor_id, line))
                 .await;
-- 
2.43.0


From 7977262ceca79705f5f62a1c819fcf42fd543c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:46 +0000
Subject: [PATCH 18/43] fix: don't follow dangling symbolic links out of the
 project

A symbolic link to a file that doesn't exist was taken for a part of the
path that is yet to be created, so that writing to it created the file it
points to, wherever that was. Also, some paths with ".." in them made the
daemon panic.
---
 daemon/src/sandbox.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index e8bce6c..ffa5af3 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -141,24 +141,20 @@ fn absolute_and_canonicalized(path: &Path) -> Result<PathBuf> {
     }
 
     // Remove any ".." and "." from the path.
-    let canonical_path = path.clean();
+    let mut prefix_path = path.clean();
     let mut suffix_path = PathBuf::new();
-    let mut prefix_path = canonical_path.clone();
 
-    for component in path.components().rev() {
-        if prefix_path.exists() {
-            break;
-        }
-        prefix_path.pop();
-        if let std::path::Component::Normal(os_str) = component {
-            suffix_path = if suffix_path.components().count() != 0 {
-                Path::new(os_str).join(&suffix_path)
-            } else {
-                Path::new(os_str).to_path_buf()
-            };
+    // Find the part of the path that exists. A symbolic link is there even if its target isn't.
+    while prefix_path.symlink_metadata().is_err() {
+        let Some(name) = prefix_path.file_name() else {
+            bail!("No part of the path exists.");
+        };
+        suffix_path = if suffix_path.components().count() != 0 {
+            Path::new(name).join(&suffix_path)
         } else {
-            panic!("Got unexpected Component variant while canonicalizing");
-        }
+            Path::new(name).to_path_buf()
+        };
+        prefix_path.pop();
     }
 
     let mut canonical_path = prefix_path
-- 
2.43.0


From ed01c8f9ec31167a2b6ab2cddaabdafe69806202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:03 +0000
Subject: [PATCH 19/43] fix: don't stumble over file names that are not UTF-8

A single file with such a name made the daemon panic at startup, or as soon
as anything changed. Leave out these files. Use the same rules at startup as
for files that appear later, so that backup files are left out as well.
---
 daemon/src/daemon.rs  | 6 +++---
 daemon/src/sandbox.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index f94fab1..ad3ca63 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -616,9 +616,9 @@ impl DocumentActor {
                     .path()
                     .file_name()
                     .expect("Failed to get file name from path.")
-                    .to_str()
-                    .expect("Failed to convert OsStr to str");
-                !ignored_things.contains(&name)
+                    .to_str();
+                // Names that are not valid UTF-8 can't be shared.
+                name.is_some_and(|name| !ignored_things.contains(&name) && !name.ends_with('~'))
             })
             .build()
     }
diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index ffa5af3..0496943 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -105,9 +105,9 @@ pub fn ignored(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bo
                 .path()
                 .file_name()
                 .expect("Failed to get file name from path.")
-                .to_str()
-                .expect("Failed to convert OsStr to str");
-            !ignored_things.contains(&name) && !name.ends_with('~')
+                .to_str();
+            // Names that are not valid UTF-8 can't be shared.
+            name.is_some_and(|name| !ignored_things.contains(&name) && !name.ends_with('~'))
         })
         .build();
 
-- 
2.43.0


From 98533e4a7779708631b3293dd9a9119e1834f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:22 +0000
Subject: [PATCH 20/43] fix: leave no trace of ignored files that editors tried
 to open

The daemon creates a file to find out whether it's ignored. Remove it again
if that is the case. Also, don't panic if finding out fails.
---
 daemon/src/editor_connection.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index 18cf0e1..10fbe99 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -120,9 +120,9 @@ impl EditorConnection {
                     .map_err(anyhow_err_to_protocol_err)?;
 
                 debug!("Got an 'open' message for {relative_path}");
-                if !sandbox::exists(&self.base_dir, &absolute_path)
-                    .map_err(anyhow_err_to_protocol_err)?
-                {
+                let exists = sandbox::exists(&self.base_dir, &absolute_path)
+                    .map_err(anyhow_err_to_protocol_err)?;
+                if !exists {
                     // Creating nonexisting files allows us to traverse this file for whether it's
                     // ignored, which is needed to even be allowed to open it.
                     sandbox::write_file(&self.base_dir, &absolute_path, b"")
@@ -131,8 +131,12 @@ impl EditorConnection {
 
                 // We only want to process these messages for files that are not ignored.
                 if sandbox::ignored(&self.base_dir, &absolute_path)
-                    .expect("Could not check ignore status of opened file")
+                    .map_err(anyhow_err_to_protocol_err)?
                 {
+                    if !exists {
+                        sandbox::remove_file(&self.base_dir, &absolute_path)
+                            .map_err(anyhow_err_to_protocol_err)?;
+                    }
                     return Err(EditorProtocolMessageError {
                         code: -1,
                         message: format!("File {absolute_path} is ignored"),
-- 
2.43.0


From d81ee3040abad65c256b0251ff2371feaa3e05fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:44 +0000
Subject: [PATCH 21/43] fix: treat all spellings of a path as the same file

If an editor opened a file by a path with "//" or ".." in it, the file was
shared a second time under that name.
---
 daemon/src/path.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/src/path.rs b/daemon/src/path.rs
index 2c6c8be..5a612eb 100644
--- a/daemon/src/path.rs
+++ b/daemon/src/path.rs
@@ -6,6 +6,7 @@
 use anyhow::{bail, Context};
 use automerge::Prop;
 use derive_more::{AsRef, Deref, Display};
+use path_clean::PathClean;
 use serde::{Deserialize, Serialize};
 use std::path::{self, Path, PathBuf};
 
@@ -66,7 +67,9 @@ impl RelativePath {
                 base_dir.display()
             )
         })?;
-        let relative_path = path.strip_prefix(&project_dir).with_context(|| {
+        // There are many ways to write down the path of a file, but it's still the same file.
+        let clean_path = path.clean();
+        let relative_path = clean_path.strip_prefix(&project_dir).with_context(|| {
             format!(
                 "Failed to strip project directory '{}' from path {path}",
                 project_dir.display()
-- 
2.43.0


From 8a22ad75b43d7e342de52fb9a60ec41a7ba75f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:05 +0000
Subject: [PATCH 22/43] fix: don't write files that an editor closes without
 having opened them

---
 daemon/src/daemon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index ad3ca63..0118e00 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -674,7 +674,7 @@ impl DocumentActor {
                 // This was handled already, because it depends on the editor.
             }
             ComponentMessage::Close { file_path } => {
-                self.maybe_write_file(file_path);
+                debug!("{file_path} was closed, but it wasn't open.");
             }
             ComponentMessage::Edit { file_path, delta } => {
                 self.crdt_doc.apply_delta_to_doc(delta, file_path);
-- 
2.43.0


From 570fa13055d8611f5469c5ae9e00d36e91f63b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:33 +0000
Subject: [PATCH 23/43] fix: replace files in one go when writing them

When the disk was full or the daemon was killed while it wrote a file, the
file was left empty or cut off. The watcher or the next start then took
this for a change by the user and shared it with everybody. Write the new
content to a temporary file first.

Don't panic if writing fails, because that might just be about this file,
for example if there's a directory of the same name.
---
 daemon/src/daemon.rs  | 29 +++++++++++++++--------------
 daemon/src/sandbox.rs | 42 +++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 56 insertions(+), 15 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 0118e00..ae8fe9b 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -582,27 +582,28 @@ impl DocumentActor {
                 let abs_path = self.absolute_path_for_file_path(file_path);
                 debug!("Writing to {abs_path}.");
 
-                // Create the parent directorie(s), if neccessary.
-                let parent_dir = abs_path.parent().unwrap();
-                sandbox::create_dir_all(&self.base_dir, parent_dir).unwrap_or_else(|_| {
-                    panic!("Could not create parent directory {}", parent_dir.display())
-                });
-
-                // If the file didn't exist before, log it.
-                if !sandbox::exists(&self.base_dir, &abs_path)
-                    .expect("Failed to check for file existence before writing to it")
-                {
-                    info!("Creating {file_path}.");
+                if let Err(err) = self.write_text(&abs_path, &text) {
+                    error!("Could not write to file {abs_path}: {err}");
                 }
-
-                sandbox::write_file(&self.base_dir, &abs_path, &text.into_bytes())
-                    .unwrap_or_else(|_| panic!("Could not write to file {abs_path}"));
             } else {
                 warn!("Failed to get content of file '{file_path}' when writing to disk. Key should have existed?");
             }
         }
     }
 
+    fn write_text(&self, abs_path: &AbsolutePath, text: &str) -> Result<()> {
+        // Create the parent directorie(s), if neccessary.
+        let parent_dir = abs_path.parent().unwrap();
+        sandbox::create_dir_all(&self.base_dir, parent_dir)?;
+
+        // If the file didn't exist before, log it.
+        if !sandbox::exists(&self.base_dir, abs_path)? {
+            info!("Creating {abs_path}.");
+        }
+
+        sandbox::replace_file(&self.base_dir, abs_path, text.as_bytes())
+    }
+
     // TODO: Should this also go to the sandbox module?
     fn build_walk(&mut self) -> Walk {
         let ignored_things = [".git", ".ethersync"];
diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index 0496943..346c310 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -11,7 +11,7 @@ use anyhow::{bail, Context, Result};
 use ignore::WalkBuilder;
 use path_clean::PathClean;
 use std::fs::{self, OpenOptions};
-use std::io::Write;
+use std::io::{self, Write};
 use std::path::{Path, PathBuf};
 
 pub fn read_file(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<Vec<u8>> {
@@ -32,6 +32,46 @@ pub fn write_file(
     Ok(())
 }
 
+/// Replaces the content of a file in one go: Whatever happens, the file will either have the old
+/// or the new content.
+pub fn replace_file(
+    absolute_base_dir: &Path,
+    absolute_file_path: &Path,
+    content: &[u8],
+) -> Result<()> {
+    let canonical_file_path =
+        check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;
+    // A file with a name like this is never shared.
+    let temporary_file_path = canonical_file_path.with_file_name(".ethersync-temporary~");
+
+    // It might be left over from a crash. It also must not be a link to some other place.
+    let _ = fs::remove_file(&temporary_file_path);
+    let temporary_file = OpenOptions::new()
+        .write(true)
+        .create_new(true)
+        .open(&temporary_file_path);
+
+    let result = temporary_file.and_then(|mut file| {
+        file.write_all(content)?;
+        if let Ok(metadata) = fs::metadata(&canonical_file_path) {
+            fs::set_permissions(&temporary_file_path, metadata.permissions())?;
+        }
+        fs::rename(&temporary_file_path, &canonical_file_path)
+    });
+    match result {
+        // We're not allowed to create files here, but maybe to write to this one.
+        Err(error) if error.kind() == io::ErrorKind::PermissionDenied => {
+            fs::write(canonical_file_path, content)?;
+        }
+        Err(error) => {
+            let _ = fs::remove_file(&temporary_file_path);
+            return Err(error.into());
+        }
+        Ok(()) => {}
+    }
+    Ok(())
+}
+
 pub fn append_file(
     absolute_base_dir: &Path,
     absolute_file_path: &Path,
-- 
2.43.0


From 78a18c297b482784b7936e30fbc018811f85407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:34 +0000
Subject: [PATCH 24/43] fix: start again after a crash while the document was
 being saved

The first save replaces the file in one go. If a later, incremental save
was cut short, everything before it is loaded.
---
 daemon/src/daemon.rs   |  7 ++++---
 daemon/src/document.rs | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index ae8fe9b..4c92945 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -179,9 +179,10 @@ impl DocumentActor {
                 if self.save_fully {
                     debug!("Persisting fully!");
                     let bytes = self.crdt_doc.save();
-                    sandbox::write_file(&self.base_dir, &persistence_file, &bytes).unwrap_or_else(
-                        |_| panic!("Failed to persist to '{}'", persistence_file.display()),
-                    );
+                    sandbox::replace_file(&self.base_dir, &persistence_file, &bytes)
+                        .unwrap_or_else(|_| {
+                            panic!("Failed to persist to '{}'", persistence_file.display())
+                        });
                     self.save_fully = false
                 } else {
                     debug!("Persisting incrementally!");
diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 10f4714..ee08ec4 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -12,7 +12,7 @@ use automerge::{
     patches::TextRepresentation,
     sync::{Message as AutomergeSyncMessage, State as SyncState, SyncDoc},
     transaction::Transactable,
-    AutoCommit, ObjType, Patch, PatchLog, ReadDoc,
+    AutoCommit, AutomergeError, LoadOptions, ObjType, OnPartialLoad, Patch, PatchLog, ReadDoc,
 };
 use dissimilar::Chunk;
 use tracing::{debug, info};
@@ -49,9 +49,19 @@ impl Default for Document {
 
 impl Document {
     pub fn load(bytes: &[u8]) -> Self {
-        let doc =
-            AutoCommit::load(bytes).expect("Failed to load Automerge document from given bytes");
-        Self { doc }
+        AutoCommit::load(bytes)
+            .map(|doc| Self { doc })
+            .or_else(|_| Self::load_intact_part(bytes))
+            .expect("Failed to load Automerge document from given bytes")
+    }
+
+    /// If we were interrupted while saving incrementally, the last change is incomplete.
+    fn load_intact_part(bytes: &[u8]) -> Result<Self, AutomergeError> {
+        // This gives us what was saved first. Adding everything to it will take what's intact.
+        let options = LoadOptions::new().on_partial_load(OnPartialLoad::Ignore);
+        let mut doc = AutoCommit::load_with_options(bytes, options)?;
+        doc.load_incremental(bytes)?;
+        Ok(Self { doc })
     }
 
     pub fn save(&mut self) -> Vec<u8> {
-- 
2.43.0


From 55444a609af15e8d3a400f0ed6aef2caea09b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:48 +0000
Subject: [PATCH 25/43] fix: save changes before telling peers and before
 writing files

After a crash, the daemon forgot up to a second of changes that its peers
had already received, or that it had already written to files. Deleted
files came back, and received files were shared a second time.
---
 daemon/src/daemon.rs | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 4c92945..141e7eb 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -174,30 +174,15 @@ impl DocumentActor {
             DocMessage::FromWatcher(watcher_event) => {
                 self.handle_watcher_event(watcher_event).await;
             }
-            DocMessage::Persist => {
-                let persistence_file = self.base_dir.join(".ethersync/doc");
-                if self.save_fully {
-                    debug!("Persisting fully!");
-                    let bytes = self.crdt_doc.save();
-                    sandbox::replace_file(&self.base_dir, &persistence_file, &bytes)
-                        .unwrap_or_else(|_| {
-                            panic!("Failed to persist to '{}'", persistence_file.display())
-                        });
-                    self.save_fully = false
-                } else {
-                    debug!("Persisting incrementally!");
-                    let bytes = self.crdt_doc.save_incremental();
-                    sandbox::append_file(&self.base_dir, &persistence_file, &bytes).unwrap_or_else(
-                        |_| panic!("Failed to persist to '{}'", persistence_file.display()),
-                    );
-                }
-            }
+            DocMessage::Persist => self.persist(),
             DocMessage::ReceiveSyncMessage {
                 message,
                 state: mut peer_state,
                 response_tx,
             } => {
                 let patches = self.apply_sync_message_to_doc(message, &mut peer_state);
+                // If we get interrupted after writing files, we need to know where they came from.
+                self.persist();
 
                 let patch_effects = PatchEffect::from_crdt_patches(patches);
 
@@ -271,6 +256,8 @@ impl DocumentActor {
                 state: mut peer_state,
                 response_tx,
             } => {
+                // Otherwise, after a crash, our peers would know more about our files than we do.
+                self.persist();
                 let message = self.crdt_doc.generate_sync_message(&mut peer_state);
 
                 if response_tx.send((peer_state, message)).is_err() {
@@ -297,6 +284,27 @@ impl DocumentActor {
         }
     }
 
+    fn persist(&mut self) {
+        let persistence_file = self.base_dir.join(".ethersync/doc");
+        if self.save_fully {
+            debug!("Persisting fully!");
+            let bytes = self.crdt_doc.save();
+            sandbox::replace_file(&self.base_dir, &persistence_file, &bytes).unwrap_or_else(|_| {
+                panic!("Failed to persist to '{}'", persistence_file.display())
+            });
+            self.save_fully = false
+        } else {
+            let bytes = self.crdt_doc.save_incremental();
+            if bytes.is_empty() {
+                return;
+            }
+            debug!("Persisting incrementally!");
+            sandbox::append_file(&self.base_dir, &persistence_file, &bytes).unwrap_or_else(|_| {
+                panic!("Failed to persist to '{}'", persistence_file.display())
+            });
+        }
+    }
+
     fn absolute_path_for_file_path(&self, file_path: &RelativePath) -> AbsolutePath {
         AbsolutePath::from_parts(&self.base_dir, file_path).expect("base_dir should be absolute")
     }
-- 
2.43.0


From 7a9d64ecab5389f9b3fbca2f9ef21912ea3b4f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:29 +0000
Subject: [PATCH 26/43] fix: finish writing files after having been interrupted

If the daemon stopped after saving a change it had received, but before
writing it to the files, the next start took the old files for the newest
content, and took back the change everywhere. The same happened with files
that could not be written, for example because the disk was full.

Before writing files, store which ones. If the next start finds such a
list, write the files that still have their old content.
---
 daemon/src/daemon.rs   | 164 ++++++++++++++++++++++++++++++++---------
 daemon/src/document.rs |  20 ++++-
 2 files changed, 147 insertions(+), 37 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 141e7eb..62ff061 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -11,8 +11,7 @@ use crate::peer;
 use crate::sandbox;
 use crate::types::{
     ComponentMessage, EditorProtocolMessageError, EditorProtocolMessageFromEditor,
-    EditorProtocolObject, FileTextDelta, JSONRPCFromEditor, JSONRPCResponse, PatchEffect,
-    TextDelta,
+    EditorProtocolObject, JSONRPCFromEditor, JSONRPCResponse, PatchEffect, TextDelta,
 };
 use crate::watcher::Watcher;
 use crate::watcher::WatcherEvent;
@@ -24,8 +23,10 @@ use automerge::{
 use futures::SinkExt;
 use ignore::{Walk, WalkBuilder};
 use rand::Rng;
-use std::collections::{HashMap, HashSet};
+use serde::{Deserialize, Serialize};
+use std::collections::{hash_map::DefaultHasher, HashMap, HashSet};
 use std::fmt;
+use std::hash::Hasher;
 use std::path::{Path, PathBuf};
 use std::sync::{
     atomic::{AtomicUsize, Ordering},
@@ -95,6 +96,15 @@ pub struct DocumentActor {
     crdt_doc: Document,
     base_dir: PathBuf,
     save_fully: bool,
+    /// Files which are not in line with the document yet, and a hash of the content they have.
+    unwritten_files: HashMap<RelativePath, Option<u64>>,
+}
+
+/// This is stored while we're writing files, to be able to finish that after an interruption.
+#[derive(Serialize, Deserialize)]
+struct UnwrittenFiles {
+    heads: Vec<String>,
+    files: HashMap<RelativePath, Option<u64>>,
 }
 
 impl DocumentActor {
@@ -132,8 +142,12 @@ impl DocumentActor {
             base_dir,
             crdt_doc,
             save_fully: true,
+            unwritten_files: HashMap::default(),
         };
 
+        if persistence_file_exists && !init {
+            s.finish_writing_files();
+        }
         if persistence_file_exists {
             s.read_current_content_from_dir(init);
         } else if is_host {
@@ -181,38 +195,29 @@ impl DocumentActor {
                 response_tx,
             } => {
                 let patches = self.apply_sync_message_to_doc(message, &mut peer_state);
-                // If we get interrupted after writing files, we need to know where they came from.
-                self.persist();
-
                 let patch_effects = PatchEffect::from_crdt_patches(patches);
 
+                let mut changed_files = HashSet::new();
                 let mut file_deltas = vec![];
                 let mut cursor_states = vec![];
 
                 for patch_effect in patch_effects {
                     match patch_effect {
                         PatchEffect::FileChange(file_text_delta) => {
+                            changed_files.insert(file_text_delta.file_path.clone());
                             file_deltas.push(file_text_delta);
                         }
                         PatchEffect::CursorChange(cursor_state) => {
                             cursor_states.push(cursor_state);
                         }
                         PatchEffect::FileRemoval(file_path) => {
-                            info!("Removing file {file_path}.");
-
-                            sandbox::remove_file(
-                                &self.base_dir,
-                                &self.absolute_path_for_file_path(&file_path),
-                            )
-                            .unwrap_or_else(|err| {
-                                warn!("Failed to remove file {file_path}: {err}");
-                            });
+                            changed_files.insert(file_path);
                         }
                         PatchEffect::NoEffect => {}
                     }
                 }
 
-                self.maybe_write_files_changed_in_file_deltas(&file_deltas);
+                self.bring_files_in_line(changed_files);
                 // An empty delta means that the file was created. If it existed before, it has been
                 // replaced, and the deltas don't apply to the text the editors have.
                 let mut replaced_files: Vec<RelativePath> = vec![];
@@ -567,37 +572,111 @@ impl DocumentActor {
                 let _ = self.doc_changed_ping_tx.send(());
             }
         } else {
-            self.maybe_write_file(file_path);
+            self.bring_files_in_line(HashSet::from([file_path.clone()]));
         }
     }
 
-    fn maybe_write_files_changed_in_file_deltas(&mut self, file_deltas: &Vec<FileTextDelta>) {
-        // Collect file paths into a set, so we don't write files multiple times on complex
-        // patches.
-        let mut file_paths = HashSet::new();
-        for FileTextDelta { file_path, .. } in file_deltas {
-            file_paths.insert(file_path);
+    /// Writes or removes files, so that they are what the document says.
+    fn bring_files_in_line(&mut self, mut file_paths: HashSet<RelativePath>) {
+        // If we couldn't write some files before, try again.
+        file_paths.extend(self.unwritten_files.drain().map(|(file_path, _)| file_path));
+
+        for file_path in file_paths {
+            // Only write to the file if editor *doesn't* have the file open.
+            if self.crdt_doc.file_exists(&file_path) && !self.owns(&file_path) {
+                continue;
+            }
+            let content = self.content_on_disk(&file_path);
+            let desired_content = self.current_file_content(&file_path).ok();
+            if content != desired_content.map(String::into_bytes) {
+                self.unwritten_files
+                    .insert(file_path, content.as_deref().map(hash));
+            }
         }
 
+        // If we get interrupted while writing the files, they must not be mistaken for the current
+        // content when we start the next time.
+        self.store_unwritten_files();
+        self.persist();
+        if !self.unwritten_files.is_empty() {
+            self.write_unwritten_files();
+            self.store_unwritten_files();
+        }
+    }
+
+    fn write_unwritten_files(&mut self) {
+        let file_paths: Vec<RelativePath> = self.unwritten_files.keys().cloned().collect();
         for file_path in file_paths {
-            self.maybe_write_file(file_path);
+            match self.write_file(&file_path) {
+                Ok(()) => {
+                    self.unwritten_files.remove(&file_path);
+                }
+                Err(err) => error!("Could not write to file {file_path}: {err}"),
+            }
+        }
+    }
+
+    fn write_file(&self, file_path: &RelativePath) -> Result<()> {
+        let abs_path = self.absolute_path_for_file_path(file_path);
+        if let Ok(text) = self.current_file_content(file_path) {
+            debug!("Writing to {abs_path}.");
+            self.write_text(&abs_path, &text)
+        } else {
+            info!("Removing file {file_path}.");
+            sandbox::remove_file(&self.base_dir, &abs_path)
         }
     }
 
-    fn maybe_write_file(&mut self, file_path: &RelativePath) {
-        // Only write to the file if editor *doesn't* have the file open.
-        if self.owns(file_path) {
-            if let Ok(text) = self.current_file_content(file_path) {
-                let abs_path = self.absolute_path_for_file_path(file_path);
-                debug!("Writing to {abs_path}.");
+    fn content_on_disk(&self, file_path: &RelativePath) -> Option<Vec<u8>> {
+        sandbox::read_file(&self.base_dir, &self.absolute_path_for_file_path(file_path)).ok()
+    }
+
+    fn unwritten_files_path(&self) -> PathBuf {
+        self.base_dir.join(".ethersync/unwritten")
+    }
+
+    fn store_unwritten_files(&mut self) {
+        let path = self.unwritten_files_path();
+        if self.unwritten_files.is_empty() {
+            if sandbox::exists(&self.base_dir, &path).unwrap_or(false) {
+                sandbox::remove_file(&self.base_dir, &path).unwrap_or_else(|err| {
+                    warn!("Failed to remove '{}': {err}", path.display());
+                });
+            }
+            return;
+        }
+
+        let unwritten_files = UnwrittenFiles {
+            heads: self.crdt_doc.heads(),
+            files: self.unwritten_files.clone(),
+        };
+        let bytes =
+            serde_json::to_vec(&unwritten_files).expect("Could not serialize unwritten files");
+        sandbox::replace_file(&self.base_dir, &path, &bytes)
+            .unwrap_or_else(|_| panic!("Failed to write to '{}'", path.display()));
+    }
 
-                if let Err(err) = self.write_text(&abs_path, &text) {
-                    error!("Could not write to file {abs_path}: {err}");
+    /// If we have been interrupted while writing files, do the rest.
+    fn finish_writing_files(&mut self) {
+        let Ok(bytes) = sandbox::read_file(&self.base_dir, &self.unwritten_files_path()) else {
+            return;
+        };
+        let Ok(stored) = serde_json::from_slice::<UnwrittenFiles>(&bytes) else {
+            warn!("Could not parse the list of unwritten files, ignoring it.");
+            return;
+        };
+        // Otherwise, we were interrupted before the change that these files are missing was saved.
+        if self.crdt_doc.contains_heads(&stored.heads) {
+            for (file_path, content_hash) in stored.files {
+                // If the file is different now, it was either written already, or changed after
+                // the interruption.
+                if self.content_on_disk(&file_path).as_deref().map(hash) == content_hash {
+                    self.unwritten_files.insert(file_path, content_hash);
                 }
-            } else {
-                warn!("Failed to get content of file '{file_path}' when writing to disk. Key should have existed?");
             }
+            self.write_unwritten_files();
         }
+        self.store_unwritten_files();
     }
 
     fn write_text(&self, abs_path: &AbsolutePath, text: &str) -> Result<()> {
@@ -649,7 +728,9 @@ impl DocumentActor {
                         let relative_file_path =
                             RelativePath::try_from_path(&self.base_dir, file_path)
                                 .expect("Walked file path should be within base directory");
-                        if let Ok(text) = String::from_utf8(bytes) {
+                        if self.unwritten_files.contains_key(&relative_file_path) {
+                            warn!("Ignoring {relative_file_path}, because it's outdated.");
+                        } else if let Ok(text) = String::from_utf8(bytes) {
                             if init {
                                 self.crdt_doc.initialize_text(&text, &relative_file_path);
                             } else {
@@ -665,6 +746,9 @@ impl DocumentActor {
                 }
             });
         for file_path in self.crdt_doc.files() {
+            if self.unwritten_files.contains_key(&file_path) {
+                continue;
+            }
             let absolute_file_path = self.absolute_path_for_file_path(&file_path);
             if !sandbox::exists(&self.base_dir, &absolute_file_path).expect("") {
                 warn!("File {file_path} exists in the CRDT, but not on disk. Deleting from CRDT.");
@@ -689,7 +773,9 @@ impl DocumentActor {
             ComponentMessage::Edit { file_path, delta } => {
                 self.crdt_doc.apply_delta_to_doc(delta, file_path);
                 let _ = self.doc_changed_ping_tx.send(());
-                self.maybe_write_file(file_path);
+                if self.owns(file_path) {
+                    self.bring_files_in_line(HashSet::from([file_path.clone()]));
+                }
             }
             ComponentMessage::Cursor {
                 cursor_id,
@@ -796,6 +882,12 @@ impl DocumentActor {
     }
 }
 
+fn hash(content: &[u8]) -> u64 {
+    let mut hasher = DefaultHasher::new();
+    hasher.write(content);
+    hasher.finish()
+}
+
 /// This handle knows how to talk to the `DocumentActor` and provides an interface for doing so.
 ///
 /// The main iterfaces for doing so is through through sending `DocMessage`s with `send_message`.
diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index ee08ec4..8a06c90 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -12,9 +12,11 @@ use automerge::{
     patches::TextRepresentation,
     sync::{Message as AutomergeSyncMessage, State as SyncState, SyncDoc},
     transaction::Transactable,
-    AutoCommit, AutomergeError, LoadOptions, ObjType, OnPartialLoad, Patch, PatchLog, ReadDoc,
+    AutoCommit, AutomergeError, ChangeHash, LoadOptions, ObjType, OnPartialLoad, Patch, PatchLog,
+    ReadDoc,
 };
 use dissimilar::Chunk;
+use std::str::FromStr;
 use tracing::{debug, info};
 
 /// Encapsulates the Automerge `AutoCommit` and provides a generic interface,
@@ -72,6 +74,22 @@ impl Document {
         self.doc.save_incremental()
     }
 
+    /// Identifies the changes the document consists of.
+    pub fn heads(&mut self) -> Vec<String> {
+        self.doc
+            .get_heads()
+            .iter()
+            .map(ToString::to_string)
+            .collect()
+    }
+
+    pub fn contains_heads(&mut self, heads: &[String]) -> bool {
+        heads.iter().all(|head| {
+            ChangeHash::from_str(head)
+                .is_ok_and(|hash| self.doc.get_change_by_hash(&hash).is_some())
+        })
+    }
+
     pub fn actor_id(&self) -> String {
         self.doc.get_actor().to_hex_string()
     }
-- 
2.43.0


From b3acf7af89e6279f66313056a0139e6a7385438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:59 +0000
Subject: [PATCH 27/43] fix: don't leave half a key behind when interrupted

The daemon could not start any more after a crash while it was writing its
new key.
---
 daemon/src/peer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index eabf97b..b2884e3 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -244,14 +244,17 @@ impl P2PActor {
                 .to_protobuf_encoding()
                 .expect("Failed to serialize keypair");
 
+            // Write the complete key to another file first, so that we can't end up with half a key.
+            let temporary_keyfile = keyfile.with_file_name("key~");
+            let _ = fs::remove_file(&temporary_keyfile);
             let mut file = OpenOptions::new()
-                .create(true)
+                .create_new(true)
                 .write(true)
-                .truncate(true)
                 .mode(0o600)
-                .open(keyfile)
+                .open(&temporary_keyfile)
                 .expect("Should have been able to create key file that did not exist before");
             file.write_all(&bytes).expect("Failed to write to key file");
+            fs::rename(temporary_keyfile, keyfile).expect("Failed to rename key file");
 
             keypair
         }
-- 
2.43.0


From 162b3bed6a69749752b51da84344cf928557e248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:13 +0000
Subject: [PATCH 28/43] fix: don't take files that couldn't be written for
 changed or deleted ones

When writing a received file failed, the next event for it or its directory
made everybody lose that file. And when only a part of the received changes
could be saved before an interruption, the files were not brought in line with
that part at the next start, so the changes were reverted.
---
 daemon/src/daemon.rs   | 54 +++++++++++++++++++++++++++++-------------
 daemon/src/document.rs | 11 +--------
 2 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 62ff061..3a8a1ef 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -96,6 +96,8 @@ pub struct DocumentActor {
     crdt_doc: Document,
     base_dir: PathBuf,
     save_fully: bool,
+    /// Identifies what has been saved already.
+    saved_heads: Vec<String>,
     /// Files which are not in line with the document yet, and a hash of the content they have.
     unwritten_files: HashMap<RelativePath, Option<u64>>,
 }
@@ -103,7 +105,8 @@ pub struct DocumentActor {
 /// This is stored while we're writing files, to be able to finish that after an interruption.
 #[derive(Serialize, Deserialize)]
 struct UnwrittenFiles {
-    heads: Vec<String>,
+    /// As long as nothing was saved after this, the files are not missing anything.
+    saved_heads: Option<Vec<String>>,
     files: HashMap<RelativePath, Option<u64>>,
 }
 
@@ -142,8 +145,10 @@ impl DocumentActor {
             base_dir,
             crdt_doc,
             save_fully: true,
+            saved_heads: vec![],
             unwritten_files: HashMap::default(),
         };
+        s.saved_heads = s.crdt_doc.heads();
 
         if persistence_file_exists && !init {
             s.finish_writing_files();
@@ -308,6 +313,7 @@ impl DocumentActor {
                 panic!("Failed to persist to '{}'", persistence_file.display())
             });
         }
+        self.saved_heads = self.crdt_doc.heads();
     }
 
     fn absolute_path_for_file_path(&self, file_path: &RelativePath) -> AbsolutePath {
@@ -427,7 +433,7 @@ impl DocumentActor {
             WatcherEvent::Created { file_path } => {
                 let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                     .expect("Watcher event should have a path within the base directory");
-                if self.owns(&relative_file_path) {
+                if self.owns(&relative_file_path) && !self.is_outdated(&relative_file_path) {
                     let content = match sandbox::read_file(&self.base_dir, Path::new(&file_path)) {
                         Ok(content) => content,
                         Err(e) => {
@@ -455,6 +461,7 @@ impl DocumentActor {
                 for relative_file_path in self.crdt_doc.files() {
                     if !relative_file_path.starts_with(&relative_path)
                         || !self.owns(&relative_file_path)
+                        || self.is_outdated(&relative_file_path)
                     {
                         continue;
                     }
@@ -471,7 +478,7 @@ impl DocumentActor {
                 // Only update if we own the file.
                 let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                     .expect("Watcher event should have a path within the base directory");
-                if self.owns(&relative_file_path) {
+                if self.owns(&relative_file_path) && !self.is_outdated(&relative_file_path) {
                     let new_content = match sandbox::read_file(
                         &self.base_dir,
                         Path::new(&file_path),
@@ -579,6 +586,10 @@ impl DocumentActor {
     /// Writes or removes files, so that they are what the document says.
     fn bring_files_in_line(&mut self, mut file_paths: HashSet<RelativePath>) {
         // If we couldn't write some files before, try again.
+        let saved_heads = self
+            .unwritten_files
+            .is_empty()
+            .then(|| self.saved_heads.clone());
         file_paths.extend(self.unwritten_files.drain().map(|(file_path, _)| file_path));
 
         for file_path in file_paths {
@@ -596,11 +607,11 @@ impl DocumentActor {
 
         // If we get interrupted while writing the files, they must not be mistaken for the current
         // content when we start the next time.
-        self.store_unwritten_files();
+        self.store_unwritten_files(saved_heads);
         self.persist();
         if !self.unwritten_files.is_empty() {
             self.write_unwritten_files();
-            self.store_unwritten_files();
+            self.store_unwritten_files(None);
         }
     }
 
@@ -635,7 +646,7 @@ impl DocumentActor {
         self.base_dir.join(".ethersync/unwritten")
     }
 
-    fn store_unwritten_files(&mut self) {
+    fn store_unwritten_files(&mut self, saved_heads: Option<Vec<String>>) {
         let path = self.unwritten_files_path();
         if self.unwritten_files.is_empty() {
             if sandbox::exists(&self.base_dir, &path).unwrap_or(false) {
@@ -647,7 +658,7 @@ impl DocumentActor {
         }
 
         let unwritten_files = UnwrittenFiles {
-            heads: self.crdt_doc.heads(),
+            saved_heads,
             files: self.unwritten_files.clone(),
         };
         let bytes =
@@ -665,18 +676,27 @@ impl DocumentActor {
             warn!("Could not parse the list of unwritten files, ignoring it.");
             return;
         };
-        // Otherwise, we were interrupted before the change that these files are missing was saved.
-        if self.crdt_doc.contains_heads(&stored.heads) {
-            for (file_path, content_hash) in stored.files {
-                // If the file is different now, it was either written already, or changed after
-                // the interruption.
-                if self.content_on_disk(&file_path).as_deref().map(hash) == content_hash {
-                    self.unwritten_files.insert(file_path, content_hash);
+        // Otherwise, we were interrupted before anything was saved.
+        if stored.saved_heads != Some(self.crdt_doc.heads()) {
+            self.unwritten_files = stored.files;
+            // If a file is different now, it was either written already, or changed after the
+            // interruption.
+            let file_paths: Vec<RelativePath> = self.unwritten_files.keys().cloned().collect();
+            for file_path in file_paths {
+                if !self.is_outdated(&file_path) {
+                    self.unwritten_files.remove(&file_path);
                 }
             }
             self.write_unwritten_files();
         }
-        self.store_unwritten_files();
+        self.store_unwritten_files(None);
+    }
+
+    /// Does the file still have the content that we should have replaced?
+    fn is_outdated(&self, file_path: &RelativePath) -> bool {
+        self.unwritten_files
+            .get(file_path)
+            .is_some_and(|content| *content == self.content_on_disk(file_path).as_deref().map(hash))
     }
 
     fn write_text(&self, abs_path: &AbsolutePath, text: &str) -> Result<()> {
@@ -728,7 +748,7 @@ impl DocumentActor {
                         let relative_file_path =
                             RelativePath::try_from_path(&self.base_dir, file_path)
                                 .expect("Walked file path should be within base directory");
-                        if self.unwritten_files.contains_key(&relative_file_path) {
+                        if self.is_outdated(&relative_file_path) {
                             warn!("Ignoring {relative_file_path}, because it's outdated.");
                         } else if let Ok(text) = String::from_utf8(bytes) {
                             if init {
@@ -746,7 +766,7 @@ impl DocumentActor {
                 }
             });
         for file_path in self.crdt_doc.files() {
-            if self.unwritten_files.contains_key(&file_path) {
+            if self.is_outdated(&file_path) {
                 continue;
             }
             let absolute_file_path = self.absolute_path_for_file_path(&file_path);
diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 8a06c90..d33e794 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -12,11 +12,9 @@ use automerge::{
     patches::TextRepresentation,
     sync::{Message as AutomergeSyncMessage, State as SyncState, SyncDoc},
     transaction::Transactable,
-    AutoCommit, AutomergeError, ChangeHash, LoadOptions, ObjType, OnPartialLoad, Patch, PatchLog,
-    ReadDoc,
+    AutoCommit, AutomergeError, LoadOptions, ObjType, OnPartialLoad, Patch, PatchLog, ReadDoc,
 };
 use dissimilar::Chunk;
-use std::str::FromStr;
 use tracing::{debug, info};
 
 /// Encapsulates the Automerge `AutoCommit` and provides a generic interface,
@@ -83,13 +81,6 @@ impl Document {
             .collect()
     }
 
-    pub fn contains_heads(&mut self, heads: &[String]) -> bool {
-        heads.iter().all(|head| {
-            ChangeHash::from_str(head)
-                .is_ok_and(|hash| self.doc.get_change_by_hash(&hash).is_some())
-        })
-    }
-
     pub fn actor_id(&self) -> String {
         self.doc.get_actor().to_hex_string()
     }
-- 
2.43.0


From 2a998525f0e310c43969359b9bc190e1b151b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:02 +0000
Subject: [PATCH 29/43] fix: don't let an editor that stopped reading keep
 everybody else waiting

---
 daemon/src/daemon.rs |  3 +--
 daemon/src/editor.rs | 24 +++++++++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 3a8a1ef..4c0e961 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -20,7 +20,6 @@ use automerge::{
     sync::{Message as AutomergeSyncMessage, State as SyncState},
     Patch,
 };
-use futures::SinkExt;
 use ignore::{Walk, WalkBuilder};
 use rand::Rng;
 use serde::{Deserialize, Serialize};
@@ -551,7 +550,7 @@ impl DocumentActor {
             return;
         };
 
-        if let Err(err) = connection.1.send(message).await {
+        if let Err(err) = connection.1.send(message) {
             error!("Failed to send message to editor: {err} Removing editor.");
             self.remove_editor(editor_id);
         }
diff --git a/daemon/src/editor.rs b/daemon/src/editor.rs
index 33fec57..357401a 100644
--- a/daemon/src/editor.rs
+++ b/daemon/src/editor.rs
@@ -8,6 +8,7 @@ use crate::daemon::{DocMessage, DocumentActorHandle};
 use crate::sandbox;
 use crate::types::EditorProtocolObject;
 use anyhow::{bail, Context, Result};
+use futures::SinkExt;
 use std::{
     fs, io,
     os::unix::fs::PermissionsExt,
@@ -16,16 +17,19 @@ use std::{
 use tokio::{
     io::{AsyncBufReadExt, BufReader, WriteHalf},
     net::{UnixListener, UnixStream},
+    sync::mpsc,
 };
 use tokio_util::{
     bytes::BytesMut,
     codec::{Encoder, FramedWrite},
 };
-use tracing::info;
+use tracing::{error, info};
 
 pub type EditorId = usize;
 
-pub type EditorWriter = FramedWrite<WriteHalf<UnixStream>, EditorProtocolCodec>;
+/// Messages waiting for the editor to read them. An editor that reads slowly, or not at all,
+/// shouldn't keep anybody else waiting.
+pub type EditorWriter = mpsc::UnboundedSender<EditorProtocolObject>;
 
 pub struct EditorProtocolCodec;
 
@@ -149,7 +153,8 @@ fn spawn_editor_connection(
     tokio::spawn(async move {
         let (stream_read, stream_write) = tokio::io::split(stream);
         let mut reader = BufReader::new(stream_read);
-        let writer = FramedWrite::new(stream_write, EditorProtocolCodec);
+        let (writer, messages) = mpsc::unbounded_channel();
+        tokio::spawn(write_to_editor(stream_write, messages));
 
         document_handle
             .send_message(DocMessage::NewEditorConnection(editor_id, writer))
@@ -176,3 +181,16 @@ fn spawn_editor_connection(
         info!("Client #{editor_id} disconnected");
     });
 }
+
+async fn write_to_editor(
+    stream_write: WriteHalf<UnixStream>,
+    mut messages: mpsc::UnboundedReceiver<EditorProtocolObject>,
+) {
+    let mut writer = FramedWrite::new(stream_write, EditorProtocolCodec);
+    while let Some(message) = messages.recv().await {
+        if let Err(err) = writer.send(message).await {
+            error!("Failed to send message to editor: {err}");
+            break;
+        }
+    }
+}
-- 
2.43.0


From efa6b04f406f552f232f1cc79dcab345ae74a292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:56 +0000
Subject: [PATCH 30/43] fix: keep receiving while waiting to send to a peer

---
 daemon/src/peer.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index b2884e3..0fa47c5 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -381,7 +381,7 @@ impl SyncActor {
             .expect("Couldn't read response from Document channel");
     }
 
-    async fn generate_sync_message(&mut self) -> Result<()> {
+    async fn generate_sync_message(&mut self) -> Result<Option<AutomergeSyncMessage>> {
         let (reponse_tx, response_rx) = oneshot::channel();
         self.document_handle
             .send_message(DocMessage::GenerateSyncMessage {
@@ -393,29 +393,33 @@ impl SyncActor {
             .await
             .context("Could not read response from Document channel")?;
         self.peer_state = ps;
-        if let Some(message) = message {
-            self.syncer_sender
-                .send(message)
-                .await
-                .context("Failed to send on syncer_sender channel")?;
-        }
-        Ok(())
+        Ok(message)
     }
 
     async fn run(mut self) -> Result<()> {
         let mut doc_changed_ping_rx = self.document_handle.subscribe_document_changes();
 
         // Kick off initial synchronization with peer.
-        self.generate_sync_message().await?;
+        let mut needs_sync = true;
+        let syncer_sender = self.syncer_sender.clone();
 
         loop {
             tokio::select! {
+                // Keep receiving while we wait for our turn to send. Otherwise, two peers that both
+                // have a lot to tell would wait for each other forever.
+                permit = syncer_sender.reserve(), if needs_sync => {
+                    let permit = permit.context("Failed to send on syncer_sender channel")?;
+                    needs_sync = false;
+                    if let Some(message) = self.generate_sync_message().await? {
+                        permit.send(message);
+                    }
+                }
                 // As doc_changed_ping_rx is a broadcast channel our understanding is,
                 // that this breaks a potential cyclic deadlock between SyncerActor
                 // and TCPActor (e.g. when TCPWriteActor.send blocks).
                 doc_ping = doc_changed_ping_rx.recv() => {
                     match doc_ping {
-                        Ok(()) => { self.generate_sync_message().await?; }
+                        Ok(()) => { needs_sync = true; }
                         Err(broadcast::error::RecvError::Closed) => {
                             panic!("Doc changed channel has been closed");
                         }
-- 
2.43.0


From cc9cb9755ced472f85533212dbd40ac13c83fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:48 +0000
Subject: [PATCH 31/43] fix: share files behind links to directories under
 their real name

If the project contains a symbolic link to one of its directories, changes of
files in that directory were reported with the link's name, and got shared as
if they were different files. With links that lead back to the project, this
went on without end.
---
 daemon/src/watcher.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/daemon/src/watcher.rs b/daemon/src/watcher.rs
index 21d86f3..86128fd 100644
--- a/daemon/src/watcher.rs
+++ b/daemon/src/watcher.rs
@@ -69,6 +69,10 @@ impl Watcher {
                 debug!("Ignoring event without a path: {event:?}");
                 continue;
             };
+            let Some(path) = &self.without_links(path) else {
+                debug!("Ignoring event outside of the directory: {event:?}");
+                continue;
+            };
 
             match event.kind {
                 EventKind::Create(notify::event::CreateKind::File) => {
@@ -102,7 +106,7 @@ impl Watcher {
                 EventKind::Modify(notify::event::ModifyKind::Name(
                     notify::event::RenameMode::To,
                 )) => {
-                    if path.is_dir() {
+                    if path.is_dir() && !path.is_symlink() {
                         let path = path.clone();
                         self.queue_files_in(&path);
                         continue;
@@ -136,6 +140,22 @@ impl Watcher {
         }
     }
 
+    /// If there are symbolic links to a directory, we might be told about its files as if they were
+    /// behind one of the links.
+    fn without_links(&self, path: &Path) -> Option<PathBuf> {
+        let (Some(parent), Some(name)) = (path.parent(), path.file_name()) else {
+            return Some(path.to_path_buf());
+        };
+        let (Ok(real_base_dir), Ok(real_parent)) =
+            (self.base_dir.canonicalize(), parent.canonicalize())
+        else {
+            // The directory is gone already.
+            return Some(path.to_path_buf());
+        };
+        let relative_parent = real_parent.strip_prefix(real_base_dir).ok()?;
+        Some(self.base_dir.join(relative_parent).join(name))
+    }
+
     /// New directories can already contain files before they are being watched, and files can
     /// already be gone from them again. There won't be any events for these, so we have to look
     /// for them.
-- 
2.43.0


From 68ecdedabb4e539bafb8b01f6e90cfebeb75c2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:48 +0000
Subject: [PATCH 32/43] fix: don't create a temporary file outside the project

A peer could use a file name which stands for the project directory itself.
The temporary file for it was created next to the project.
---
 daemon/src/sandbox.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index 346c310..a5ef4e0 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -41,6 +41,10 @@ pub fn replace_file(
 ) -> Result<()> {
     let canonical_file_path =
         check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;
+    // Next to the base directory itself would be outside of it.
+    if canonical_file_path.is_dir() {
+        bail!("There is a directory in the place of the file.");
+    }
     // A file with a name like this is never shared.
     let temporary_file_path = canonical_file_path.with_file_name(".ethersync-temporary~");
 
-- 
2.43.0


From 3a9e64def0ce94c3bca72a42a531ab9d894d90b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:48 +0000
Subject: [PATCH 33/43] fix: ignore ambiguous file names from peers

Names like "a//b" or "a/." are compared as equal to "a/b" and "a". Changes to
such a file were applied to the text of the other one, which could crash the
daemon.
---
 daemon/src/path.rs  |  9 +++++++++
 daemon/src/types.rs | 12 ++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/daemon/src/path.rs b/daemon/src/path.rs
index 5a612eb..f6caedc 100644
--- a/daemon/src/path.rs
+++ b/daemon/src/path.rs
@@ -60,6 +60,15 @@ impl RelativePath {
         Self(path.into())
     }
 
+    /// Is this the only way to write down this path? The paths "a/b" and "a//b/" are equal.
+    pub fn is_unambiguous(path: &str) -> bool {
+        Path::new(path)
+            .components()
+            .collect::<PathBuf>()
+            .as_os_str()
+            == path
+    }
+
     pub fn try_from_absolute(base_dir: &Path, path: &AbsolutePath) -> Result<Self, anyhow::Error> {
         let project_dir = path::absolute(base_dir).with_context(|| {
             format!(
diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index 0247cb8..7d6517c 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -478,6 +478,18 @@ impl TryFrom<Patch> for PatchEffect {
 
         match &patch.path[0] {
             (_, automerge::Prop::Map(key)) if key == "files" => {
+                let name = match (patch.path.get(1), &patch.action) {
+                    (Some((_, automerge::Prop::Map(name))), _) => Some(name),
+                    (None, PatchAction::PutMap { key, .. } | PatchAction::DeleteMap { key }) => {
+                        Some(key)
+                    }
+                    _ => None,
+                };
+                // We could mistake it for another file.
+                if name.is_some_and(|name| !RelativePath::is_unambiguous(name)) {
+                    warn!("Ignoring file with ambiguous name {name:?}");
+                    return Ok(PatchEffect::NoEffect);
+                }
                 if patch.path.len() == 1 {
                     match patch.action {
                         PatchAction::PutMap { key, conflict, .. } => {
-- 
2.43.0


From 1530a60d6637522d4c95e71d399e20afde504380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:48 +0000
Subject: [PATCH 34/43] fix: don't crash because of file names outside the
 project

A peer can use any file name. One that can't be resolved inside the project
crashed the daemon, either directly, or when it was started the next time.
---
 daemon/src/daemon.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 4c0e961..6bee5df 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -15,7 +15,7 @@ use crate::types::{
 };
 use crate::watcher::Watcher;
 use crate::watcher::WatcherEvent;
-use anyhow::Result;
+use anyhow::{Context, Result};
 use automerge::{
     sync::{Message as AutomergeSyncMessage, State as SyncState},
     Patch,
@@ -700,7 +700,7 @@ impl DocumentActor {
 
     fn write_text(&self, abs_path: &AbsolutePath, text: &str) -> Result<()> {
         // Create the parent directorie(s), if neccessary.
-        let parent_dir = abs_path.parent().unwrap();
+        let parent_dir = abs_path.parent().context("File path has no parent")?;
         sandbox::create_dir_all(&self.base_dir, parent_dir)?;
 
         // If the file didn't exist before, log it.
@@ -769,9 +769,17 @@ impl DocumentActor {
                 continue;
             }
             let absolute_file_path = self.absolute_path_for_file_path(&file_path);
-            if !sandbox::exists(&self.base_dir, &absolute_file_path).expect("") {
-                warn!("File {file_path} exists in the CRDT, but not on disk. Deleting from CRDT.");
-                self.crdt_doc.remove_text(&file_path);
+            match sandbox::exists(&self.base_dir, &absolute_file_path) {
+                Ok(true) => {}
+                Ok(false) => {
+                    warn!(
+                        "File {file_path} exists in the CRDT, but not on disk. Deleting from CRDT."
+                    );
+                    self.crdt_doc.remove_text(&file_path);
+                }
+                Err(error) => {
+                    warn!("Ignoring file {file_path} from the CRDT: {error}");
+                }
             }
         }
         let _ = self.doc_changed_ping_tx.send(());
-- 
2.43.0


From 1fbb03bd80d70450ea383b880e2f00fbeece58b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:23 +0000
Subject: [PATCH 35/43] fix: keep editors in step that open a file which was
 deleted while it was open

If a peer deletes a file that is open in one editor, and another editor opens
it after that, the two editors had different texts. The next edit was then
applied to the wrong text, and could crash the daemon.
---
 daemon/src/daemon.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 6bee5df..8a4097b 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -339,6 +339,18 @@ impl DocumentActor {
 
         match &inside_message {
             ComponentMessage::Open { file_path } if files_in_editors.contains(file_path) => {
+                if !self.crdt_doc.file_exists(file_path) {
+                    // Somebody has deleted the file in the meantime. Opening it brings it back.
+                    let content = self
+                        .editor_connections
+                        .iter_mut()
+                        .filter(|(id, _)| **id != editor_id)
+                        .find_map(|(_, connection)| connection.0.content(file_path));
+                    if let Some(content) = content {
+                        self.crdt_doc.initialize_text(&content, file_path);
+                        let _ = self.doc_changed_ping_tx.send(());
+                    }
+                }
                 // The file on disk might be older than what is being edited.
                 self.bring_editor_up_to_date(&editor_id, file_path).await;
             }
-- 
2.43.0


From b0de52df402908b8d9c4f657477cc2584c37d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:02 +0000
Subject: [PATCH 36/43] fix: understand header fields after the length and both
 header styles in one stream

The program that connects editors to the daemon gave up when a message had
another header field after Content-Length, which the base protocol allows.
It also looked for the end of the header in the next message when the two
messages ended their headers in different ways.
---
 daemon/src/jsonrpc_forwarder.rs | 39 +++++++++++++++------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/daemon/src/jsonrpc_forwarder.rs b/daemon/src/jsonrpc_forwarder.rs
index 66714fb..6961d9a 100644
--- a/daemon/src/jsonrpc_forwarder.rs
+++ b/daemon/src/jsonrpc_forwarder.rs
@@ -74,29 +74,26 @@ impl Decoder for ContentLengthCodec {
             None => return Ok(None),
         };
 
-        // Find the end of the line after that.
-        let (end_of_line, end_of_line_bytes) = match src[start_of_header + c.len()..]
-            .windows(4)
-            .position(|window| window == b"\r\n\r\n")
-        {
-            Some(pos) => (pos, 4),
-            // Even though this is not valid in terms of the spec, also
-            // accept plain newline separators in order to simplify manual testing.
-            None => match src[start_of_header + c.len()..]
-                .windows(2)
-                .position(|window| (window == b"\n\n"))
-            {
-                Some(pos) => (pos, 2),
-                None => return Ok(None),
-            },
+        // Find the end of the header after that, whichever way of ending it comes first.
+        // Even though this is not valid in terms of the spec, also
+        // accept plain newline separators in order to simplify manual testing.
+        let header = &src[start_of_header + c.len()..];
+        let crlf = header.windows(4).position(|window| window == b"\r\n\r\n");
+        let newline = header.windows(2).position(|window| window == b"\n\n");
+        let (end_of_header, end_of_header_bytes) = match (crlf, newline) {
+            (Some(crlf), Some(newline)) if newline < crlf => (newline, 2),
+            (Some(crlf), _) => (crlf, 4),
+            (None, Some(newline)) => (newline, 2),
+            (None, None) => return Ok(None),
         };
 
-        // Parse the content length.
-        let content_length = std::str::from_utf8(
-            &src[start_of_header + c.len()..start_of_header + c.len() + end_of_line],
-        )?
-        .parse()?;
-        let content_start = start_of_header + c.len() + end_of_line + end_of_line_bytes;
+        // Parse the content length. Other header fields may follow on the next lines.
+        let content_length = std::str::from_utf8(&header[..end_of_header])?
+            .lines()
+            .next()
+            .unwrap_or_default()
+            .parse()?;
+        let content_start = start_of_header + c.len() + end_of_header + end_of_header_bytes;
 
         // Recommended optimization, in anticipation for future calls to `decode`.
         src.reserve(content_start + content_length);
-- 
2.43.0


From 0534eaa7035a04ea9cc0b32ddd421dbb89ef2d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:02 +0000
Subject: [PATCH 37/43] fix: tell the user's edits from the daemon's in VS Code

An edit of the user was mistaken for one of the daemon if it was equal to an
edit that had been refused, to one that was being refused, or to one in
another document. An edit of the daemon in several places was mistaken for
one of the user, as VS Code reports the changes in the opposite order.
---
 vscode-plugin/src/extension.ts | 46 ++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 345e271..6e47c0e 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -73,7 +73,8 @@ let contents: {[filename: string]: string[]} = {}
 // TODO: if we load from disk, this will also cause edits :-/
 let t0 = Date.now()
 const mutex = new Mutex()
-let attemptedRemoteEdits: Set<vscode.TextEdit[]> = new Set()
+// Edits by the daemon that VS Code has applied, but that we haven't seen the change event of yet.
+let appliedRemoteEdits: {filename: string; textEdits: vscode.TextEdit[]}[] = []
 
 const openType = new rpc.RequestType<{uri: string}, string, void>("open")
 const closeType = new rpc.RequestType<{uri: string}, string, void>("close")
@@ -197,10 +198,15 @@ async function processEditFromDaemon(edit: Edit) {
 
             const document = documentForUri(uri)
             if (document) {
-                let textEdit = ethersyncDeltasToVSCodeTextEdits(document, edit.delta)
-                attemptedRemoteEdits.add(textEdit)
+                // Edits without any effect don't cause an event.
+                let textEdits = ethersyncDeltasToVSCodeTextEdits(document, edit.delta).filter(
+                    (textEdit) => !textEdit.range.isEmpty || textEdit.newText !== "",
+                )
                 let worked = await applyEdit(document, edit)
                 if (worked) {
+                    if (textEdits.length > 0) {
+                        appliedRemoteEdits.push({filename, textEdits})
+                    }
                     revision.daemon += 1
                     // Attempt auto-save to avoid the situation where one user closes a modified
                     // document without saving, which will cause VS Code to undo the dirty changes.
@@ -294,8 +300,10 @@ function isTextEditsEqualToVSCodeContentChanges(
     if (textEdits.length !== changes.length) {
         return false
     }
+    // The daemon lists edits from the beginning of the document to its end,
+    // VS Code reports changes from the end to the beginning.
     for (let i = 0; i < textEdits.length; i++) {
-        let textEdit = textEdits[i]
+        let textEdit = textEdits[textEdits.length - 1 - i]
         let change = changes[i]
         if (textEdit.newText !== change.text || !textEdit.range.isEqual(change.range)) {
             return false
@@ -305,18 +313,16 @@ function isTextEditsEqualToVSCodeContentChanges(
 }
 
 function isRemoteEdit(event: vscode.TextDocumentChangeEvent): boolean {
-    let found: vscode.TextEdit[] | null = null
-    for (let attemptedEdit of attemptedRemoteEdits) {
-        if (isTextEditsEqualToVSCodeContentChanges(attemptedEdit, event.contentChanges)) {
-            found = attemptedEdit
-            break
-        }
-    }
-    if (found !== null) {
-        attemptedRemoteEdits.delete(found)
-        return true
+    let found = appliedRemoteEdits.findIndex(
+        (applied) =>
+            applied.filename === event.document.fileName &&
+            isTextEditsEqualToVSCodeContentChanges(applied.textEdits, event.contentChanges),
+    )
+    if (found === -1) {
+        return false
     }
-    return false
+    appliedRemoteEdits.splice(found, 1)
+    return true
 }
 
 // NOTE: We might get multiple events per document.version,
@@ -326,12 +332,14 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
         // File is not currently tracked in Ethersync.
         return
     }
-    if (isRemoteEdit(event)) {
-        debug("Ignoring remote event (we have caused it)")
-        return
-    }
     mutex
         .runExclusive(() => {
+            // Only here, we know whether VS Code has accepted the edit that was being applied.
+            if (isRemoteEdit(event)) {
+                debug("Ignoring remote event (we have caused it)")
+                return
+            }
+
             let document = event.document
 
             // For some reason we get multipe events per edit caused by us.
-- 
2.43.0


From ba445516c530ae4ceeea34d9ec8feeb7039b42a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:04 +0000
Subject: [PATCH 38/43] fix: convert positions in VS Code using the text the
 edit was made in

When several changes followed each other quickly, the positions of the
earlier ones were converted using the text after the later ones. Edits were
sent for the wrong place, or not at all if there was no such line any more.
---
 vscode-plugin/src/extension.ts | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 6e47c0e..8ee191f 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -257,11 +257,9 @@ async function applyEdit(document: vscode.TextDocument, edit: Edit): Promise<boo
     workspaceEdit.set(document.uri, edits)
     let worked = await vscode.workspace.applyEdit(workspaceEdit)
 
-    // TODO: Make this more efficient by replacing only the changed lines.
-    // The challenge with that is that we need to compute how many lines are
-    // left after the edit.
     if (worked) {
-        updateContents(document)
+        // The daemon lists edits from the beginning of the document to its end.
+        applyToContents(document.fileName, edits.map(({range, newText}) => ({range, text: newText})).reverse())
     }
     return worked
 }
@@ -369,10 +367,7 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
                 debug(`sent edit for dR ${revision.daemon} (having edR ${revision.editor})`)
             }
 
-            // TODO: Make this more efficient by replacing only the changed lines.
-            // The challenge with that is that we need to compute how many lines are
-            // left after the edit.
-            updateContents(document)
+            applyToContents(filename, event.contentChanges)
 
             // Attempt auto-save to avoid the situation where one user closes a modified
             // document without saving, which will cause VS Code to undo the dirty changes.
@@ -456,3 +451,17 @@ function updateContents(document: vscode.TextDocument) {
         contents[document.fileName][line] = document.lineAt(line).text
     }
 }
+
+// Carries out changes on the contents we know. They need to be ordered from the end of the document to its beginning.
+//
+// We can't take the lines of the document instead: it might already contain later changes,
+// the events of which we haven't processed yet.
+function applyToContents(filename: string, changes: readonly {range: vscode.Range; text: string}[]) {
+    let content = contents[filename]
+    for (const {range, text} of changes) {
+        let before = content[range.start.line].slice(0, range.start.character)
+        let after = content[range.end.line].slice(range.end.character)
+        let lines = (before + text + after).split(/\r\n|\r|\n/)
+        content.splice(range.start.line, range.end.line - range.start.line + 1, ...lines)
+    }
+}
-- 
2.43.0


From ab47f99adb1d5bfb4ddfd85ef5de5813590af378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:22 +0000
Subject: [PATCH 39/43] fix: don't apply edits in VS Code while there are
 unsent edits by the user

An edit of the daemon could be applied while events about changes by the user
were still waiting to be processed, so it ended up in the wrong place.
---
 vscode-plugin/src/extension.ts | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 8ee191f..44e6f1a 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -73,6 +73,8 @@ let contents: {[filename: string]: string[]} = {}
 // TODO: if we load from disk, this will also cause edits :-/
 let t0 = Date.now()
 const mutex = new Mutex()
+// Change events that we haven't processed yet.
+let pendingEvents: vscode.TextDocumentChangeEvent[] = []
 // Edits by the daemon that VS Code has applied, but that we haven't seen the change event of yet.
 let appliedRemoteEdits: {filename: string; textEdits: vscode.TextEdit[]}[] = []
 
@@ -198,6 +200,13 @@ async function processEditFromDaemon(edit: Edit) {
 
             const document = documentForUri(uri)
             if (document) {
+                if (pendingEvents.some((event) => event.document.fileName === filename)) {
+                    // The daemon doesn't know about the user's latest edits yet. When it does,
+                    // it will send us a transformed edit.
+                    debug("Received edit, but there are unsent edits by the user, ignoring")
+                    return
+                }
+
                 // Edits without any effect don't cause an event.
                 let textEdits = ethersyncDeltasToVSCodeTextEdits(document, edit.delta).filter(
                     (textEdit) => !textEdit.range.isEmpty || textEdit.newText !== "",
@@ -206,6 +215,7 @@ async function processEditFromDaemon(edit: Edit) {
                 if (worked) {
                     if (textEdits.length > 0) {
                         appliedRemoteEdits.push({filename, textEdits})
+                        pendingEvents = pendingEvents.filter((event) => !isRemoteEdit(event))
                     }
                     revision.daemon += 1
                     // Attempt auto-save to avoid the situation where one user closes a modified
@@ -330,14 +340,11 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
         // File is not currently tracked in Ethersync.
         return
     }
+    if (event.contentChanges.length > 0 && !isRemoteEdit(event)) {
+        pendingEvents.push(event)
+    }
     mutex
         .runExclusive(() => {
-            // Only here, we know whether VS Code has accepted the edit that was being applied.
-            if (isRemoteEdit(event)) {
-                debug("Ignoring remote event (we have caused it)")
-                return
-            }
-
             let document = event.document
 
             // For some reason we get multipe events per edit caused by us.
@@ -349,6 +356,13 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
                 return
             }
 
+            // Only here, we know whether VS Code has accepted the edit that was being applied.
+            if (!pendingEvents.includes(event)) {
+                debug("Ignoring remote event (we have caused it)")
+                return
+            }
+            pendingEvents = pendingEvents.filter((pending) => pending !== event)
+
             const filename = document.fileName
             if (!isEthersyncEnabled(path.dirname(filename))) {
                 return
-- 
2.43.0


From 59b7f331b166be699905d55239198c9c3bba0abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:27 +0000
Subject: [PATCH 40/43] fix: keep Neovim's 'eol' in step with the text the
 daemon sends

Text inserted after the last newline of a file that doesn't end with a
newline itself left 'eol' on, so that the buffer had one newline too many.
Also, 'eol' was switched off in the current buffer instead of the one that
was edited.
---
 vim-plugin/lua/utils.lua | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/vim-plugin/lua/utils.lua b/vim-plugin/lua/utils.lua
index bbc60f0..3cdf55e 100644
--- a/vim-plugin/lua/utils.lua
+++ b/vim-plugin/lua/utils.lua
@@ -90,7 +90,6 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
     end
 
     -- Apply text edits.
-    local disable_eol = false
     for _, text_edit in ipairs(text_edits) do
         -- Normalize line ending
         text_edit.newText, _ = string.gsub(text_edit.newText, "\r\n?", "\n")
@@ -108,14 +107,18 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
         -- If the whole edit is after the lines in the buffer we can simply add the new text to the end
         -- of the buffer.
         if max <= e.start_row then
-            -- If the replacement text ends with a newline, drop it - we're happy with keeping the implicit
-            -- newline at the end of the buffer (which we're assuming to be there, because we're getting
-            -- an insert *after* the visible lines.
-            -- TODO: Is this always correct?
-            if #e.text > 1 and e.text[#e.text] == "" then
-                table.remove(e.text)
+            if text_edit.newText ~= "" then
+                -- If the replacement text ends with a newline, drop it - we're happy with keeping the implicit
+                -- newline at the end of the buffer (which we're assuming to be there, because we're getting
+                -- an insert *after* the visible lines.
+                -- If it doesn't, there's no newline at the end anymore.
+                if e.text[#e.text] == "" then
+                    table.remove(e.text)
+                else
+                    vim.bo[bufnr].eol = false
+                end
+                vim.api.nvim_buf_set_lines(bufnr, max, max, false, e.text)
             end
-            vim.api.nvim_buf_set_lines(bufnr, max, max, false, e.text)
         else
             local last_line_len = #(get_line(bufnr, math.min(e.end_row, max - 1)) or "")
             -- Some LSP servers may return +1 range of the buffer content but nvim_buf_set_text can't
@@ -123,7 +126,7 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
             if max <= e.end_row then
                 e.end_row = max - 1
                 e.end_col = last_line_len
-                disable_eol = true
+                vim.bo[bufnr].eol = false
                 -- "a" + 'eol' + replace((0,1), (1,0), "") => "a" + 'noeol'
                 -- "a" + 'eol' + replace((0,1), (1,0), "\n\n") => "a\n\n" + 'noeol' (I guess?)
             else
@@ -163,10 +166,6 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
             vim.api.nvim_buf_set_mark(bufnr or 0, mark, pos[1], pos[2], {})
         end
     end
-
-    if disable_eol then
-        vim.bo.eol = false
-    end
 end
 
 return M
-- 
2.43.0


From b2b845b7a4deaf6c61f0255f29feea3bd52d4ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:27 +0000
Subject: [PATCH 41/43] fix: calculate Neovim's changes ourselves

vim.lsp.sync.compute_diff() sometimes cuts characters into pieces, and it
relies on the range of lines that Neovim reports, which is too small when
lines are pasted over a part of a line. Also, replacing the last lines by
lines starting with a newline was reported one line too early.
---
 vim-plugin/lua/changetracker.lua | 157 ++++++++++++++++++-------------
 1 file changed, 90 insertions(+), 67 deletions(-)

diff --git a/vim-plugin/lua/changetracker.lua b/vim-plugin/lua/changetracker.lua
index 07f81e3..1f90733 100644
--- a/vim-plugin/lua/changetracker.lua
+++ b/vim-plugin/lua/changetracker.lua
@@ -3,7 +3,6 @@
 --
 -- SPDX-License-Identifier: AGPL-3.0-or-later
 
-local sync = require("vim.lsp.sync")
 local utils = require("utils")
 local debug = require("logging").debug
 
@@ -12,6 +11,95 @@ local M = {}
 -- Used to note that changes to the buffer should be ignored, and not be sent out as deltas.
 local ignore_edits = false
 
+-- Is there a byte at this (one-based) index which is in the middle of a UTF-8 character?
+local function is_inside_character(text, index)
+    local byte = string.byte(text, index)
+    return byte ~= nil and byte >= 0x80 and byte < 0xC0
+end
+
+-- Calculates which range was replaced by which text, to get from prev_lines to curr_lines.
+--
+-- Vim reported that the lines from first_line (inclusive) to last_line (exclusive) have changed.
+-- It sometimes reports too few of them (for example, when you paste lines over a part of a line),
+-- so we only use these numbers to decide between several ways to express the same change.
+--
+-- The range never touches the newline at the end of the buffer, because whether it exists depends on 'eol'.
+local function compute_diff(prev_lines, curr_lines, first_line, last_line)
+    local max = math.min(#prev_lines, #curr_lines)
+
+    -- How many lines at the start, and how many lines at the end are the same?
+    local start = 0
+    while start < math.min(first_line, max - 1) and prev_lines[start + 1] == curr_lines[start + 1] do
+        start = start + 1
+    end
+    local rest = 0
+    while
+        rest < math.min(#prev_lines - last_line, max - start)
+        and prev_lines[#prev_lines - rest] == curr_lines[#curr_lines - rest]
+    do
+        rest = rest + 1
+    end
+
+    local prev_end = #prev_lines - rest
+    local curr_end = #curr_lines - rest
+
+    local function range(start_line, start_character, end_line, end_character)
+        return {
+            start = { line = start_line, character = start_character },
+            ["end"] = { line = end_line, character = end_character },
+        }
+    end
+    local function length(line)
+        return vim.fn.strchars(prev_lines[line + 1])
+    end
+
+    if start == prev_end and start < curr_end then
+        -- Whole lines were inserted.
+        local text = table.concat(curr_lines, "\n", start + 1, curr_end)
+        if start == 0 then
+            return { range = range(0, 0, 0, 0), text = text .. "\n" }
+        else
+            local character = length(start - 1)
+            return { range = range(start - 1, character, start - 1, character), text = "\n" .. text }
+        end
+    elseif start == curr_end and start < prev_end then
+        -- Whole lines were deleted.
+        return { range = range(start, 0, prev_end, 0), text = "" }
+    end
+
+    -- Find out which part of these lines is different.
+    local prev = table.concat(prev_lines, "\n", start + 1, prev_end)
+    local curr = table.concat(curr_lines, "\n", start + 1, curr_end)
+    local max_bytes = math.min(#prev, #curr)
+
+    local prefix = 0
+    while prefix < max_bytes and string.byte(prev, prefix + 1) == string.byte(curr, prefix + 1) do
+        prefix = prefix + 1
+    end
+    while prefix > 0 and (is_inside_character(prev, prefix + 1) or is_inside_character(curr, prefix + 1)) do
+        prefix = prefix - 1
+    end
+
+    local suffix = 0
+    while suffix < max_bytes - prefix and string.byte(prev, #prev - suffix) == string.byte(curr, #curr - suffix) do
+        suffix = suffix + 1
+    end
+    while suffix > 0 and is_inside_character(prev, #prev - suffix + 1) do
+        suffix = suffix - 1
+    end
+
+    local function position(bytes)
+        local lines = vim.split(string.sub(prev, 1, bytes), "\n", { plain = true })
+        return start + #lines - 1, vim.fn.strchars(lines[#lines])
+    end
+    local start_line, start_character = position(prefix)
+    local end_line, end_character = position(#prev - suffix)
+    return {
+        range = range(start_line, start_character, end_line, end_character),
+        text = string.sub(curr, prefix + 1, #curr - suffix),
+    }
+end
+
 -- Subscribes the callback to changes for a given buffer id and reports with a delta.
 --
 -- The delta can be expected to be in the format as specified in the daemon-editor protocol.
@@ -43,75 +131,10 @@ function M.track_changes(buffer, callback)
             end
 
             debug({ curr_lines = curr_lines, prev_lines = prev_lines })
-            local diff = sync.compute_diff(prev_lines, curr_lines, first_line, last_line, new_last_line, "utf-32", "\n")
+            local diff = compute_diff(prev_lines, curr_lines, first_line, last_line)
             -- line/character indices in diff are zero-based.
             debug({ diff = diff })
 
-            -- TODO: Simplify the solution?
-            -- For example, pull tests into good variable names like "ends_with_newline".
-            -- TODO: Update the following comment to describe the problem and the solution more clearly.
-
-            -- Sometimes, Vim deletes full lines by deleting the last line, plus an imaginary newline at the end. For example, to delete the second line, Vim would delete from (line: 1, column: 0) to (line: 2, column 0).
-            -- But, in the case of deleting the last line, what we expect in the rest of Ethersync is to delete the newline *before* the line.
-            -- So let's change the deleted range to (line: 0, column: [last character of the first line]) to (line: 1, column: [last character of the second line]).
-
-            if diff.range["end"].line == #prev_lines then
-                -- Range spans to a line one after the visible buffer lines.
-                if diff.range["start"].line == 0 then
-                    -- The range starts on the first line, so we can't "shift the range backwards".
-                    -- Instead, we just shorten the range by one character.
-                    diff.range["end"].line = diff.range["end"].line - 1
-                    diff.range["end"].character = vim.fn.strchars(prev_lines[#prev_lines])
-                    if string.sub(diff.text, -1) == "\n" then
-                        -- The replacement ends with a newline.
-                        -- Drop it, because we shortened the range not to include the newline.
-                        diff.text = string.sub(diff.text, 1, -2)
-                    end
-                else
-                    -- The range doesn't start on the first line.
-                    if diff.range["end"].character == 0 then
-                        -- The range ends at the beginning of the line after the visible lines.
-                        if diff.range["start"].character == 0 then
-                            -- Operation applies to beginning of lines, that means it's possible to shift it back.
-                            -- Modify edit, s.t. not the last \n, but the one before is replaced.
-                            diff.range["start"].line = diff.range["start"].line - 1
-                            diff.range["end"].line = diff.range["end"].line - 1
-                            diff.range["start"].character = vim.fn.strchars(prev_lines[diff.range["start"].line + 1])
-                            diff.range["end"].character = vim.fn.strchars(prev_lines[diff.range["end"].line + 1])
-                        elseif string.sub(diff.text, -1) == "\n" then
-                            -- The replacement ends with a newline.
-                            -- Drop it, and shorten the range by one character.
-                            diff.text = string.sub(diff.text, 1, -2)
-                            diff.range["end"].line = diff.range["end"].line - 1
-                            diff.range["end"].character = vim.fn.strchars(prev_lines[diff.range["end"].line + 1])
-                        else
-                            vim.api.nvim_err_writeln(
-                                "[ethersync] We don't know how to handle this case for a deletion after the last visible line. Please file a bug."
-                            )
-                        end
-                    else
-                        vim.api.nvim_err_writeln(
-                            "[ethersync] We think a delta ending inside the line after the visible ones cannot happen. Please file a bug."
-                        )
-                    end
-                end
-            elseif diff.range["end"].line < #prev_lines then
-                -- The range ends before the line after the last visible buffer line.
-                -- We might still want to make the delta prettier.
-                -- TODO: Integrate this case in the above if branches somehow?
-                if
-                    diff.range["end"].character == 0
-                    and string.sub(diff.text, -1) == "\n"
-                    and diff.range["start"].line < diff.range["end"].line
-                then
-                    -- Range ends on the beginning of a line, but the replacement ends with a newline.
-                    -- This newline is redundant, and leads to less-pretty diffs. Remove it.
-                    diff.text = string.sub(diff.text, 1, -2)
-                    diff.range["end"].line = diff.range["end"].line - 1
-                    diff.range["end"].character = vim.fn.strchars(prev_lines[diff.range["end"].line + 1])
-                end
-            end
-
             prev_lines = curr_lines
 
             local delta = {
-- 
2.43.0


From 6dfa3c27ed65c804f2a8e3d4b158b626532fd6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:36 +0000
Subject: [PATCH 42/43] fix: track the buffer a file was opened in in Neovim

The daemon's answer to opening a file might arrive when another buffer is
the current one, for example when several files are opened at once. The
plugin then reported that buffer's changes as changes to the file. Also,
don't fail on edits that were sent before a file was closed, and close
files which were closed before the daemon answered.
---
 vim-plugin/lua/cursor.lua       |  4 +--
 vim-plugin/plugin/ethersync.lua | 56 ++++++++++++++++++++++-----------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index 309d462..d59b236 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -197,8 +197,8 @@ function M.track_cursor(bufnr, callback)
                     local larger_row = math.max(start_row, end_row)
 
                     for row = smaller_row, larger_row do
-                        local bytes_start = vim.fn.virtcol2col(bufnr, row, smaller_cell + 1) - 1
-                        local bytes_end = vim.fn.virtcol2col(bufnr, row, larger_cell + 1) - 1
+                        local bytes_start = vim.fn.virtcol2col(0, row, smaller_cell + 1) - 1
+                        local bytes_end = vim.fn.virtcol2col(0, row, larger_cell + 1) - 1
 
                         if bytes_start ~= -1 then
                             -- The line is not empty, add a range.
diff --git a/vim-plugin/plugin/ethersync.lua b/vim-plugin/plugin/ethersync.lua
index d4ba110..78216d0 100644
--- a/vim-plugin/plugin/ethersync.lua
+++ b/vim-plugin/plugin/ethersync.lua
@@ -48,16 +48,22 @@ local function process_operation_for_editor(method, parameters)
         local filepath = vim.uri_to_fname(uri)
         local delta = parameters.delta
         local the_editor_revision = parameters.revision
+        local file = files[filepath]
+
+        -- The file might have been closed (and maybe opened again) since the daemon sent this.
+        if not file or not file.is_tracked then
+            return
+        end
 
         -- Check if operation is up-to-date to our content.
         -- If it's not, ignore it! The daemon will send a transformed one later.
-        if the_editor_revision == files[filepath].editor_revision then
+        if the_editor_revision == file.editor_revision then
             -- Find correct buffer to apply edits to.
             local bufnr = vim.uri_to_bufnr(uri)
 
             changetracker.apply_delta(bufnr, delta)
 
-            files[filepath].daemon_revision = files[filepath].daemon_revision + 1
+            file.daemon_revision = file.daemon_revision + 1
         end
     elseif method == "cursor" then
         cursor.set_cursor(parameters.uri, parameters.userid, parameters.name, parameters.ranges)
@@ -123,22 +129,17 @@ local function is_ethersync_enabled(filename)
     end
 end
 
-local function track_edits(filename, uri)
-    files[filename] = {
-        -- Number of operations the daemon has made.
-        daemon_revision = 0,
-        -- Number of operations we have made.
-        editor_revision = 0,
-    }
+local function track_edits(buffer, file, uri)
+    file.is_tracked = true
 
-    changetracker.track_changes(0, function(delta)
-        files[filename].editor_revision = files[filename].editor_revision + 1
+    changetracker.track_changes(buffer, function(delta)
+        file.editor_revision = file.editor_revision + 1
 
-        local params = { uri = uri, delta = delta, revision = files[filename].daemon_revision }
+        local params = { uri = uri, delta = delta, revision = file.daemon_revision }
 
         send_request("edit", params)
     end)
-    cursor.track_cursor(0, function(ranges)
+    cursor.track_cursor(buffer, function(ranges)
         local params = { uri = uri, ranges = ranges }
         -- Even though it's not "needed" we're sending requests in this case
         -- to ensure we're processing/seeing potential errors.
@@ -149,13 +150,13 @@ end
 -- Disabling 'autoread' prevents Neovim from reloading the file when it changes externally,
 -- but only in the case where the buffer hasn't been modified in Neovim already.
 -- For the conflicting case, we prevent a popup dialog by setting the FileChangedShell autocommand below.
-local function ensure_autoread_is_off()
+local function ensure_autoread_is_off(buffer)
     if vim.o.autoread then
         if not did_print_autoread_info then
             print("Ethersync works better when autoread is off, so we're disabling it for you (in Ethersync buffers).")
             did_print_autoread_info = true
         end
-        vim.bo.autoread = false
+        vim.bo[buffer].autoread = false
     end
 end
 
@@ -180,10 +181,29 @@ local function on_buffer_open()
         vim.bo.eol = false
     end
 
+    -- When the daemon answers, another buffer might be the current one.
+    local buffer = vim.api.nvim_get_current_buf()
+    local file = {
+        -- Number of operations the daemon has made.
+        daemon_revision = 0,
+        -- Number of operations we have made.
+        editor_revision = 0,
+        -- Has the daemon opened the file?
+        is_tracked = false,
+    }
+    files[filename] = file
+
     send_request("open", { uri = uri }, function()
-        debug("Tracking Edits")
-        ensure_autoread_is_off()
-        track_edits(filename, uri)
+        -- The buffer might have been closed in the meantime.
+        if files[filename] == file then
+            debug("Tracking Edits")
+            ensure_autoread_is_off(buffer)
+            track_edits(buffer, file, uri)
+        end
+    end, function()
+        if files[filename] == file then
+            files[filename] = nil
+        end
     end)
 end
 
-- 
2.43.0


From 6755cba34d5c25a5b9a791b0c5e450062ddc5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:55 +0000
Subject: [PATCH 43/43] fix: show cursors in Neovim after a buffer with cursors
 was closed

---
 vim-plugin/lua/cursor.lua | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index d59b236..87dcc3d 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -46,7 +46,10 @@ function M.set_cursor(uri, user_id, name, ranges)
             if user_cursor.extmark then
                 local old_id = user_cursor.extmark.id
                 local old_bufnr = user_cursor.extmark.bufnr
-                vim.api.nvim_buf_del_extmark(old_bufnr, cursor_namespace, old_id)
+                -- The buffer might have been closed in the meantime.
+                if vim.api.nvim_buf_is_valid(old_bufnr) then
+                    vim.api.nvim_buf_del_extmark(old_bufnr, cursor_namespace, old_id)
+                end
             end
         end
     end
@@ -107,7 +110,9 @@ function M.set_cursor(uri, user_id, name, ranges)
                 virt_text = virt_text,
             })
             vim.defer_fn(function()
-                vim.api.nvim_buf_del_extmark(bufnr, cursor_namespace, extmark_id)
+                if vim.api.nvim_buf_is_valid(bufnr) then
+                    vim.api.nvim_buf_del_extmark(bufnr, cursor_namespace, extmark_id)
+                end
                 for _, user_cursor in ipairs(user_cursors[user_id].cursors) do
                     if user_cursor.extmark ~= nil and user_cursor.extmark.id == extmark_id then
                         -- If we find our own extmark_id, we can remove all ranges,
-- 
2.43.0

