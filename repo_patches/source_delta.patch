From c6b29211d76b2b6e6c2f1340333fa335c28ea7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 1/5] fix: poll: do not fail a wait because its notification is
 not in the pipe

`notify` sets `notified` before it writes to the pipe, and `modify_fds` may
remove the byte that `notify` wrote. A `wait` that saw `notified` in such a
moment returned a WouldBlock error, and the `notified` flag in lib.rs stayed
set, so that later notifications were lost.
---
 src/poll.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 45407c7..9075ae9 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -221,8 +221,10 @@ impl Poller {
             loop {
                 if self.notified.swap(false, Ordering::SeqCst) {
                     // `notify` will have sent a notification in case we were polling. We weren't,
-                    // so remove it.
-                    return self.notify.pop_notification();
+                    // so remove it. It may not be there: `notify` sets `notified` before sending it,
+                    // and `modify_fds` may have removed it instead of its own.
+                    let _ = self.notify.pop_notification();
+                    return Ok(());
                 } else if self.waiting_operations.load(Ordering::SeqCst) == 0 {
                     break;
                 }
-- 
2.43.0


From 2f748d20862d8a38ae37481a61b3d56bfa9fa1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 2/5] fix: poll: a modify that fails leaves the registration as
 it was

---
 src/poll.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poll.rs b/src/poll.rs
index 9075ae9..2723836 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -156,6 +156,7 @@ impl Poller {
                 .fd_data
                 .get_mut(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
+            data.remove = cvt_mode_as_remove(mode)?;
             data.key = ev.key;
             let poll_fds_index = data.poll_fds_index;
 
@@ -165,7 +166,6 @@ impl Poller {
                 unsafe { BorrowedFd::borrow_raw(fd.as_raw_fd()) },
                 poll_events(ev),
             );
-            data.remove = cvt_mode_as_remove(mode)?;
 
             Ok(())
         })
-- 
2.43.0


From 4ec96d5f8bb3981914c3191ea997ee9ba439e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 3/5] fix: poll: honour interest in priority events without
 readable interest

---
 src/poll.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/poll.rs b/src/poll.rs
index 2723836..04a9d0d 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -351,6 +351,10 @@ fn poll_events(ev: Event) -> PollFlags {
         PollFlags::OUT | PollFlags::WRBAND
     } else {
         PollFlags::empty()
+    }) | (if ev.extra.is_pri() {
+        PollFlags::PRI
+    } else {
+        PollFlags::empty()
     })
 }
 
-- 
2.43.0


From c96dbf930a7abfffa446b0f07ab678f7b4b6a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 4/5] fix: poll: do not report hangups and errors of disarmed
 oneshot sources

After a oneshot event the interest was set to the empty set, but poll()
reports POLLHUP and POLLERR regardless of the interest: every later wait
returned another event for the source.
---
 src/poll.rs | 57 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 04a9d0d..5c04cbc 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -58,13 +58,29 @@ struct Fds {
 #[derive(Debug)]
 struct FdData {
     /// The index into `poll_fds` this file descriptor is.
-    poll_fds_index: usize,
+    ///
+    /// This is `None` after its event has been delivered in oneshot mode. An empty interest would
+    /// not be enough: `poll` reports hangups and errors regardless of the interest.
+    poll_fds_index: Option<usize>,
     /// The key of the `Event` associated with this file descriptor.
     key: usize,
     /// Whether to remove this file descriptor from the poller on the next call to `wait`.
     remove: bool,
 }
 
+impl Fds {
+    /// Stops polling the file descriptor at this index of `poll_fds`.
+    fn remove_poll_fd(&mut self, index: usize) {
+        self.poll_fds.swap_remove(index);
+        if let Some(swapped_pollfd) = self.poll_fds.get(index) {
+            self.fd_data
+                .get_mut(&swapped_pollfd.as_fd().as_raw_fd())
+                .unwrap()
+                .poll_fds_index = Some(index);
+        }
+    }
+}
+
 impl Poller {
     /// Creates a new poller.
     pub fn new() -> io::Result<Poller> {
@@ -121,7 +137,7 @@ impl Poller {
             fds.fd_data.insert(
                 fd,
                 FdData {
-                    poll_fds_index,
+                    poll_fds_index: Some(poll_fds_index),
                     key: ev.key,
                     remove: cvt_mode_as_remove(mode)?,
                 },
@@ -158,14 +174,20 @@ impl Poller {
                 .ok_or(io::ErrorKind::NotFound)?;
             data.remove = cvt_mode_as_remove(mode)?;
             data.key = ev.key;
-            let poll_fds_index = data.poll_fds_index;
 
             // SAFETY: This is essentially transmuting a `PollFd<'a>` to a `PollFd<'static>`, which
             // only works if it's removed in time with `delete()`.
-            fds.poll_fds[poll_fds_index] = PollFd::from_borrowed_fd(
+            let poll_fd = PollFd::from_borrowed_fd(
                 unsafe { BorrowedFd::borrow_raw(fd.as_raw_fd()) },
                 poll_events(ev),
             );
+            match data.poll_fds_index {
+                Some(poll_fds_index) => fds.poll_fds[poll_fds_index] = poll_fd,
+                None => {
+                    data.poll_fds_index = Some(fds.poll_fds.len());
+                    fds.poll_fds.push(poll_fd);
+                }
+            }
 
             Ok(())
         })
@@ -189,12 +211,8 @@ impl Poller {
                 .fd_data
                 .remove(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
-            fds.poll_fds.swap_remove(data.poll_fds_index);
-            if let Some(swapped_pollfd) = fds.poll_fds.get(data.poll_fds_index) {
-                fds.fd_data
-                    .get_mut(&swapped_pollfd.as_fd().as_raw_fd())
-                    .unwrap()
-                    .poll_fds_index = data.poll_fds_index;
+            if let Some(poll_fds_index) = data.poll_fds_index {
+                fds.remove_poll_fd(poll_fds_index);
             }
 
             Ok(())
@@ -269,8 +287,13 @@ impl Poller {
                 let fds = &mut *fds;
 
                 events.inner.reserve(num_fd_events);
+                let mut removed = Vec::new();
                 for fd_data in fds.fd_data.values_mut() {
-                    let poll_fd = &mut fds.poll_fds[fd_data.poll_fds_index];
+                    let poll_fds_index = match fd_data.poll_fds_index {
+                        Some(poll_fds_index) => poll_fds_index,
+                        None => continue,
+                    };
+                    let poll_fd = &fds.poll_fds[poll_fds_index];
                     if !poll_fd.revents().is_empty() {
                         // Store event
                         let revents = poll_fd.revents();
@@ -282,10 +305,8 @@ impl Poller {
                         });
                         // Remove interest if necessary
                         if fd_data.remove {
-                            *poll_fd = PollFd::from_borrowed_fd(
-                                unsafe { BorrowedFd::borrow_raw(poll_fd.as_fd().as_raw_fd()) },
-                                PollFlags::empty(),
-                            );
+                            fd_data.poll_fds_index = None;
+                            removed.push(poll_fds_index);
                         }
 
                         if events.inner.len() == num_fd_events {
@@ -293,6 +314,12 @@ impl Poller {
                         }
                     }
                 }
+
+                // Start with the last ones, so that the other indices stay valid.
+                removed.sort_unstable();
+                for poll_fds_index in removed.into_iter().rev() {
+                    fds.remove_poll_fd(poll_fds_index);
+                }
             }
 
             break;
-- 
2.43.0


From a0592eda2f90f1e1a2fa732372c40e8830dabc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 5/5] fix: epoll: do not turn the flags of a returned event
 into interest

Events returned by wait can be changed and registered again; clearing
`readable` or `writable` in them had no effect, because EPOLLIN and EPOLLOUT
were still set in the extra flags, which were added to the interest.
---
 src/epoll.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/epoll.rs b/src/epoll.rs
index 331874b..bfa12d3 100644
--- a/src/epoll.rs
+++ b/src/epoll.rs
@@ -114,7 +114,7 @@ impl Poller {
             &self.epoll_fd,
             unsafe { rustix::fd::BorrowedFd::borrow_raw(fd) },
             epoll::EventData::new_u64(ev.key as u64),
-            epoll_flags(&ev, mode) | ev.extra.flags,
+            epoll_flags(&ev, mode) | interest_flags(ev.extra),
         )?;
 
         Ok(())
@@ -134,7 +134,7 @@ impl Poller {
             &self.epoll_fd,
             fd,
             epoll::EventData::new_u64(ev.key as u64),
-            epoll_flags(&ev, mode) | ev.extra.flags,
+            epoll_flags(&ev, mode) | interest_flags(ev.extra),
         )?;
 
         Ok(())
@@ -292,6 +292,13 @@ fn epoll_flags(interest: &Event, mode: PollMode) -> epoll::EventFlags {
     flags
 }
 
+/// Get the EPOLL flags for the interest in extra events.
+///
+/// In an event that `wait` has returned, the other flags say what happened, which is no interest.
+fn interest_flags(extra: EventExtra) -> epoll::EventFlags {
+    extra.flags & (epoll::EventFlags::PRI | epoll::EventFlags::HUP)
+}
+
 /// Epoll flags for all possible readability events.
 fn read_flags() -> epoll::EventFlags {
     use epoll::EventFlags as Epoll;
-- 
2.43.0

