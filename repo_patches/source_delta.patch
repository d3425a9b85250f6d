From 3a506091a5fdd4ed43d77b47ce24e93e3f093ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:39 +0000
Subject: [PATCH 01/38] fix: do not unregister a ring that was picked up again

kill_orphan() acted on an orphan check made before taking the ring mutex.
add_ring() and find_ring() could hand the ring out in between, and the new
owner was left with a ring that is no longer polled, or freed.
---
 src/engine.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index 99ec9e1..3fb796a 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -272,6 +272,13 @@ void engine::kill_orphan(unsigned int i, ringbuf *ring)
 	// This is not critical. We don't want to stall the engine 
 	// thread just to cleanup an orphan.
 	if (!pthread_mutex_trylock(&_ring_mutex)) {
+		// Someone may have found this ring, and even pushed new records
+		// and released it again, before we got the lock.
+		if (!ring->orphan() || !ring->empty()) {
+			pthread_mutex_unlock(&_ring_mutex);
+			return;
+		}
+
 		_ring_map.erase(ring->name());
 
 		// Invalidate index. It will be rebuilt next time we
-- 
2.43.0


From 6259f2a047363c77ad1bf8aa605fcfad26b9967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:39 +0000
Subject: [PATCH 02/38] fix: wake up writers that block right after the engine
 made room

A writer that found the ring full and went to sleep after the engine had
already consumed the records was never woken up in the TSO mode, because
unblock() was only called for rings with newly consumed records.
---
 src/engine.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index 3fb796a..7a6e93f 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -480,16 +480,19 @@ void engine::process_rings_tso()
 
 	// Commit all changes
 	for (i = 0; i < _ring_index.count; i++) {
-		if (!_ring_index(i)->lastrec)
-			continue;
-
 		ringbuf::pop_iterator &it = _ring_index(i)->pit;
 		if (hogl_unlikely(!it.valid()))
 			continue;
-		it.rewind(_ring_index(i)->lastrec);
-		it.commit(ringbuf::NOBARRIER);
+
+		if (_ring_index(i)->lastrec) {
+			it.rewind(_ring_index(i)->lastrec);
+			it.commit(ringbuf::NOBARRIER);
+			_ring_index(i)->lastrec = 0;
+		}
+
+		// The writer may have gone to sleep right after the previous commit.
+		// Check for that even if nothing was consumed from this ring.
 		it.ring()->unblock();
-		_ring_index(i)->lastrec = 0;
 	}
 }
 
-- 
2.43.0


From 0c074b2adec3771787f31440fcdadf51d9f14db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:39 +0000
Subject: [PATCH 03/38] fix: set the timesource of a new ring under the ring
 mutex

A ring created while the engine was switching the timesource could be
registered after the switch with the previous timesource.
---
 src/engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.cc b/src/engine.cc
index 7a6e93f..493e1e4 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -660,9 +660,9 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 
 	ringbuf *nr = new ringbuf(name, opts);
 	nr->hold();
-	nr->timesource(_timesource);
 
 	pthread_mutex_lock(&_ring_mutex);
+	nr->timesource(_timesource);
 	s = _ring_map.insert(ring_map::value_type(name, nr));
 	s.first->second->hold();
 	pthread_mutex_unlock(&_ring_mutex);
-- 
2.43.0


From 976909cd31ee66e7cc21ad0660fc4a892733e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:39 +0000
Subject: [PATCH 04/38] fix: flush output before acking a flush request

The request was acked as soon as the engine got to it, while the text of
the preceding records was still sitting in the output buffer.
---
 src/engine.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index 493e1e4..ffcb52b 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -304,6 +304,11 @@ void engine::flush_record(unsigned int i, record *r)
 			break;
 
 		case internal::SPR_FLUSH:
+			// Everything posted before this request must be out
+			// by the time it's acked.
+			_output.flush();
+			break;
+
 		default:
 			break;
 		};
-- 
2.43.0


From abc1e61b73334ef28b5c2a6d453ae5dc66055cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:39 +0000
Subject: [PATCH 05/38] fix: make room in the TSO buffer with a capacity of one
 record

Flushing half of a single entry buffer flushed nothing and the next push
overran the buffer.
---
 src/engine.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index ffcb52b..2a88080 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -400,6 +400,10 @@ void engine::flush_full_tso()
 {
 	unsigned int size  = _tso.size() / 2;
 
+	// Must always make some room
+	if (!size)
+		size = 1;
+
 	if (_internal_area->test(internal::TSOFULLMARK)) {
 		tsobuf::entry te = {};
 		_tso.top(te);
-- 
2.43.0


From 356c6a891e4edb8bf113bff45dc1dbd06f92d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:39 +0000
Subject: [PATCH 06/38] fix: do not use up a sequence number if a request times
 out

flush() and change_timesource() took a sequence number before waiting for
room in the ring. If that timed out the engine reported a dropped record
although none was dropped.
---
 src/flush.cc      | 3 +--
 src/timesource.cc | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/flush.cc b/src/flush.cc
index c593adb..c87b3a7 100644
--- a/src/flush.cc
+++ b/src/flush.cc
@@ -55,7 +55,6 @@ bool timeout(uint64_t &to, uint64_t usec)
 // records out of this ring will ack the flush record.
 static bool do_flush(ringbuf *ring, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -66,8 +65,8 @@ static bool do_flush(ringbuf *ring, uint64_t to_usec)
 
 	// Push the flush reccord
 	record *r = ring->push_begin();
+	r->seqnum    = ring->inc_seqnum();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
 	r->special(internal::SPR_FLUSH);
 	ring->push_commit(r);
 
diff --git a/src/timesource.cc b/src/timesource.cc
index 9cd84cd..cccf44b 100644
--- a/src/timesource.cc
+++ b/src/timesource.cc
@@ -57,7 +57,6 @@ extern bool timeout(uint64_t &to, uint64_t usec);
 // records out of this ring will ack the ts change record.
 static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -68,8 +67,8 @@ static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec
 
 	// Push the timesource change reccord
 	record *r = ring->push_begin();
+	r->seqnum    = ring->inc_seqnum();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
 	r->special(internal::SPR_TIMESOURCE_CHANGE, (uint64_t) ts);
 	ring->push_commit(r);
 
-- 
2.43.0


From 4e13ff1d74d8134b2d480c36972b2d0d5864d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:39 +0000
Subject: [PATCH 07/38] fix: no bogus drop marker for a ring that moves to
 another engine

The next expected sequence number of a ring was kept only in the ring index
of the engine. After the default engine was deactivated and activated again
the first record of the default ring was always reported as following a drop.
---
 include/hogl/detail/ringbuf.hpp | 5 +++++
 src/engine.cc                   | 7 +++++--
 src/ringbuf.cc                  | 2 ++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 37c9067..b3c7ff1 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -109,6 +109,11 @@ protected:
 	// R/O access by the writer
 	vo_uint         _head;
 
+	// Private to the reader.
+	// Next expected sequence number. Lives in the ring because the ring can
+	// outlive the engine.
+	uint64_t        _next_seqnum;
+
 	/**
  	 * Get a pointer the record with a specific index 
  	 * @param i record index.
diff --git a/src/engine.cc b/src/engine.cc
index 2a88080..d19e402 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -218,7 +218,7 @@ void engine::rebuild_ring_index()
 		ringbuf *ring = it->second;
 		ni(i)->pit.ring(ring);
 		ni(i)->lastrec = 0;
-		ni(i)->seqnum    = 0;
+		ni(i)->seqnum    = ring->_next_seqnum;
 
 		ring_index::entry *re = oi(ring);
 		if (re) {
@@ -388,6 +388,7 @@ void engine::do_flush_tso(unsigned int size)
 		// Update expected seqnum and last processed record for this ring
 		_ring_index(i)->lastrec = r;
 		_ring_index(i)->seqnum  = r->seqnum + 1;
+		_ring_index(i)->pit.ring()->_next_seqnum = r->seqnum + 1;
 
 		flush_record(i, r);
 	}
@@ -518,8 +519,10 @@ void engine::process_rings_notso()
 		dprint("engine processing: ring %p prio %u", (void*)it.ring(), it.ring()->prio());
 		it.reset();
 		record *r;
-		while ((r = it.next()))
+		while ((r = it.next())) {
+			it.ring()->_next_seqnum = r->seqnum + 1;
 			flush_record(i, r);
+		}
 		it.commit();
 		it.ring()->unblock();
 
diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index 2590974..f3bcc22 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -87,6 +87,7 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 	_flags    = opts.flags;
 	_seqnum   = 0;
 	_dropcnt  = 0;
+	_next_seqnum = 0;
 	_timesource = &default_timesource;
 
 	_prio = opts.prio;
@@ -157,6 +158,7 @@ void ringbuf::reset(void)
 	_head = _capacity;
 	_seqnum   = 0;
 	_dropcnt  = 0;
+	_next_seqnum = 0;
 	unlock();
 }
 
-- 
2.43.0


From 16164ddd91ce01ac9358b00dcc357386bbb1d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:44 +0000
Subject: [PATCH 08/38] fix: apply the mask to a new area under the area mutex

---
 src/engine.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index d19e402..c817602 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -635,13 +635,14 @@ area *engine::add_area(const char *name, const char **sections)
 	s = _area_map.insert(area_map::value_type(name, na));
 	a = s.first->second;
 	_stats.areas_added++;
-	pthread_mutex_unlock(&_area_mutex);
-
 	if (s.second != false) {
 		// New area.
-		// Apply current mask before returning the area to the caller.
+		// Apply current mask before anyone else can see the area or change the mask.
 		_mask.apply(a);
+	}
+	pthread_mutex_unlock(&_area_mutex);
 
+	if (s.second != false) {
 		hogl::post(internal_area(), internal::AREA_DEBUG,
 			"new area %s(%p): number-of-sections %u", a->name(), a, a->count());
 
-- 
2.43.0


From 438b714dbda19715239195e4e30a9cf86d9758ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:44 +0000
Subject: [PATCH 09/38] fix: allow self-assignment of masks

---
 src/mask.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mask.cc b/src/mask.cc
index eb43b80..8c1c220 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -183,6 +183,8 @@ mask::mask(mask &m)
 
 void mask::operator=(const mask &m)
 {
+	if (this == &m)
+		return;
 	delete _list;
 	_list = new data_list(*m._list);
 }
-- 
2.43.0


From 4ce114cf387db77e7c4b82b663c660e4f7b98636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:45 +0000
Subject: [PATCH 10/38] fix: read all lines of a mask from a stream

---
 src/mask.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/mask.cc b/src/mask.cc
index 8c1c220..000c16b 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -115,14 +115,11 @@ mask& mask::operator<< (const std::string &str)
 
 std::istream& operator>> (std::istream &s, mask &m)
 {
-	std::stringbuf sb;
+	std::string line;
 
 	// Read lines from the stream and feed them into the mask
-	while (s.good()) {
-		sb.str("");
-		s.get(sb);
-		m << sb.str();
-	}
+	while (std::getline(s, line))
+		m << line;
 
 	return s;
 }
-- 
2.43.0


From cd73be5dbe1f73a6a0de039c2dc40316643949f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:12 +0000
Subject: [PATCH 11/38] fix: output_file helper must not wait for a request
 that was already made

---
 src/output-file.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 0eea4de..1270cbb 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -280,10 +280,9 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 
 output_file::~output_file()
 {
-	_killed = true;
-
 	// Wakeup rotation thread and wait for it to exit
 	pthread_mutex_lock(&_rotate_mutex);
+	_killed = true;
 	pthread_cond_signal(&_rotate_cond);
 	pthread_mutex_unlock(&_rotate_mutex);
 	pthread_join(_rotate_thread, NULL);
@@ -421,14 +420,15 @@ void output_file::thread_loop()
 	pthread_mutex_lock(&_rotate_mutex);
 
 	while (1) {
-		pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
+		// The request might have been made before we got the mutex,
+		// in which case nobody will signal it again.
+		while (!_killed && !_rotate_pending)
+			pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
 		if (_killed)
 			break;
 
-		if (_rotate_pending) {
-			do_rotate();
-			_rotate_pending = false;
-		}
+		do_rotate();
+		_rotate_pending = false;
 	}
 
 	pthread_mutex_unlock(&_rotate_mutex);
-- 
2.43.0


From f9b65f20101cbcce9102dff9d8b322c4a4165577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:12 +0000
Subject: [PATCH 12/38] fix: output_file must start the helper thread after
 everything it uses is set up

---
 src/output-file.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 1270cbb..bf684d2 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -254,13 +254,6 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	pthread_mutex_init(&_rotate_mutex, NULL);
 	pthread_cond_init(&_rotate_cond, NULL);
 
-	// Start helper thread
-	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
-	if (err) {
-		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
-		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
-	}
-
 	init_name(filename);
 
 	_fd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);
@@ -276,6 +269,16 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	output::header(_name.c_str());
 
 	update_link();
+
+	// Start helper thread.
+	// This has to be the last step because the helper uses everything above,
+	// and there is nobody to stop it if the constructor fails.
+	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
+	if (err) {
+		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
+		close(_fd);
+		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
+	}
 }
 
 output_file::~output_file()
@@ -395,7 +398,9 @@ void *output_file::thread_entry(void *_self)
 	output_file *self = (output_file *) _self;
 
 	std::ostringstream ss;
+	pthread_mutex_lock(&self->_rotate_mutex);
 	ss << "hogl::output_file helper (" << self->_symlink << ")";
+	pthread_mutex_unlock(&self->_rotate_mutex);
 
 	platform::set_thread_title(ss.str().c_str());
 
-- 
2.43.0


From d9ff3e2c806ae4bdea5282ff73f50364eec77c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:12 +0000
Subject: [PATCH 13/38] fix: output_file must write out the first header before
 publishing the link

---
 src/output-file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output-file.cc b/src/output-file.cc
index bf684d2..ea19a82 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -268,6 +268,9 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	// Write format header
 	output::header(_name.c_str());
 
+	// The header has to be in the file before the link to it is published
+	output::flush();
+
 	update_link();
 
 	// Start helper thread.
-- 
2.43.0


From a66f2186c98c106a418b417f3fc7be475bf9a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:12 +0000
Subject: [PATCH 14/38] fix: output_file link of a relative name with a
 directory must not dangle

---
 src/output-file.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index ea19a82..b75bd5f 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -122,6 +122,16 @@ void output_file::update_name()
 	_name = ss.str();
 }
 
+// Strip the directory of the symlink from the file name.
+// The target of a relative symlink is relative to the directory of the link itself.
+static std::string link_target(const std::string &link, const std::string &name)
+{
+	size_t dir = link.rfind('/');
+	if (name[0] == '/' || dir == link.npos || name.compare(0, dir + 1, link, 0, dir + 1))
+		return name;
+	return name.substr(dir + 1);
+}
+
 // Update symlink.
 // Creates a temp symlink that points to the new file and renames it
 // on top of the old symlink.
@@ -130,7 +140,7 @@ void output_file::update_link()
 	std::string link = _symlink + "$";
 	remove(link.c_str());
 
-	int err = symlink(_name.c_str(), link.c_str());
+	int err = symlink(link_target(_symlink, _name).c_str(), link.c_str());
 	if (err < 0)
 		fmt::fprintf(stderr, "hogl::output_file: failed to create symlink %s -> %s. %s(%d)\n",
 			_name.c_str(), _symlink.c_str(), strerror(errno), errno);
@@ -160,14 +170,14 @@ unsigned int output_file::read_link()
 	size_t pos;
 
 	// Validate and strip prefix
-	pos = str.find(_name_pref);
-	if (pos != 0) {
+	const std::string pref = link_target(_symlink, _name_pref);
+	if (str.compare(0, pref.size(), pref)) {
 		// Prefix does not match.
 		// Looks like the link is pointing to something else.
 		// Ignore, we'll fix it during update.
 		return 0;
 	}
-	str = str.substr(_name_pref.size());
+	str = str.substr(pref.size());
 
 	// Validate and strip suffix
 	if (_name_sufx.size()) {
-- 
2.43.0


From 30e612ba0121bc2b07ce6883a7539ebd601bdd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:12 +0000
Subject: [PATCH 15/38] fix: output_file must take the index only from links to
 its own files

---
 src/output-file.cc | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index b75bd5f..7587002 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -153,10 +153,9 @@ void output_file::update_link()
 // If the symlink does not exist or is invalid the index starts from zero.
 unsigned int output_file::read_link()
 {
-	unsigned int len = _symlink.size() + _index_width + 1;
-	char cstr[len];
+	char cstr[PATH_MAX];
 
-	ssize_t rlen = readlink(_symlink.c_str(), cstr, len);
+	ssize_t rlen = readlink(_symlink.c_str(), cstr, sizeof(cstr));
 	if (rlen < 0) {
 		if (errno == ENOENT)
 			return 0;
@@ -167,8 +166,6 @@ unsigned int output_file::read_link()
 
 	std::string str(cstr, rlen);
 
-	size_t pos;
-
 	// Validate and strip prefix
 	const std::string pref = link_target(_symlink, _name_pref);
 	if (str.compare(0, pref.size(), pref)) {
@@ -180,23 +177,21 @@ unsigned int output_file::read_link()
 	str = str.substr(pref.size());
 
 	// Validate and strip suffix
-	if (_name_sufx.size()) {
-		pos = str.find(_name_sufx);
-		if (_name_sufx.size() && pos == str.npos) {
-			// Suffix does not match.
-			// Ignore, we'll fix it during update.
-			return 0;
-		}
-		str = str.substr(0, pos);
+	const size_t slen = _name_sufx.size();
+	if (str.size() < slen || str.compare(str.size() - slen, slen, _name_sufx)) {
+		// Suffix does not match.
+		// Ignore, we'll fix it during update.
+		return 0;
 	}
+	str = str.substr(0, str.size() - slen);
 
 	// Convert to integer
-	unsigned long index = strtoul(str.c_str(), NULL, 10);
-	if (index == ULONG_MAX) {
-		// Hmm, conversion failed. Ignore for now.
+	if (str.empty() || str.find_first_not_of("0123456789") != str.npos) {
+		// Not an index. The link is pointing to something else.
 		return 0;
 	}
 
+	unsigned long index = strtoul(str.c_str(), NULL, 10);
 	if (index >= _max_count) {
 		// Index is outside valid range. User must've reused the 
 		// name with different settings. Ignore and restart numbering.
-- 
2.43.0


From 301586fa1202e32955c1d495f4017e8d9fb34311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:12 +0000
Subject: [PATCH 16/38] fix: output_file switch_name must not skip an index

---
 src/output-file.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/output-file.cc b/src/output-file.cc
index 7587002..837e262 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -460,6 +460,10 @@ bool output_file::switch_name(const char *filename)
 	// Reinit filename bits (sufx, etc)
 	init_name(filename);
 
+	// Rotation moves on to the next index, which is the one we have here already.
+	// Skipping it may wrap around to the file that is still being written.
+	_name_index = (_name_index ? _name_index : _max_count) - 1;
+
 	// Trigger rotation
 	_rotate_pending = true;
 	pthread_cond_signal(&_rotate_cond);
-- 
2.43.0


From 9de91bd26623df5b20a6af725f63e0d6813339a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:12 +0000
Subject: [PATCH 17/38] fix: output_file must retry the same index if rotation
 fails

---
 src/output-file.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/output-file.cc b/src/output-file.cc
index 837e262..91f5a23 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -353,6 +353,7 @@ void output_file::do_rotate()
 {
 	int ofd = _fd;
 
+	const unsigned int last_index = _name_index;
 	_name_index++;
 	if (_name_index >= _max_count)
 		_name_index = 0;
@@ -362,6 +363,8 @@ void output_file::do_rotate()
 	int nfd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);
 	if (nfd < 0) {
 		// Retry later. Let the writer thread wake us up again.
+		// Must be the same index, the next one may be the file we're still writing.
+		_name_index = last_index;
 		return;
 	}
 
@@ -374,6 +377,7 @@ void output_file::do_rotate()
 	if (nsb.failed()) {
 		// Failed to write. Retry later.
 		close(nfd);
+		_name_index = last_index;
 		return;
 	}
 
-- 
2.43.0


From 1f6c77a90538773f69d7a761a5a2c2416a300fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 18/38] fix: partial and interrupted writes must not lose
 output

---
 include/hogl/detail/ostrbuf-fd.hpp |  8 ++++++++
 src/ostrbuf-fd.cc                  | 32 +++++++++++++++++++++++++++++-
 src/output-file.cc                 |  4 ++--
 3 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/include/hogl/detail/ostrbuf-fd.hpp b/include/hogl/detail/ostrbuf-fd.hpp
index 8fd80dd..f24951b 100644
--- a/include/hogl/detail/ostrbuf-fd.hpp
+++ b/include/hogl/detail/ostrbuf-fd.hpp
@@ -34,6 +34,9 @@
 
 #include <hogl/detail/ostrbuf.hpp>
 
+#include <sys/types.h>
+#include <sys/uio.h>
+
 __HOGL_PRIV_NS_OPEN__
 namespace hogl {
 
@@ -56,6 +59,11 @@ public:
 	// Get file descriptor value
 	int fd() const { return _fd; }
 
+	// Write everything to a file descriptor.
+	// Continues after partial writes and interrupts.
+	// Returns number of bytes written or -1 on error.
+	static ssize_t writev(int fd, const struct iovec *iov, int iovcnt);
+
 	// Explicitly close the file descriptor
 	void close(); 
 
diff --git a/src/ostrbuf-fd.cc b/src/ostrbuf-fd.cc
index bf8737f..24448e3 100644
--- a/src/ostrbuf-fd.cc
+++ b/src/ostrbuf-fd.cc
@@ -40,6 +40,36 @@
 __HOGL_PRIV_NS_OPEN__
 namespace hogl {
 
+ssize_t ostrbuf_fd::writev(int fd, const struct iovec *iov, int iovcnt)
+{
+	size_t total = 0, done = 0;
+	for (int i = 0; i < iovcnt; i++)
+		total += iov[i].iov_len;
+
+	while (done < total) {
+		ssize_t n;
+		if (!done) {
+			n = ::writev(fd, iov, iovcnt);
+		} else {
+			// Partial write. Skip what's done and continue.
+			size_t skip = done;
+			int i = 0;
+			while (skip >= iov[i].iov_len)
+				skip -= iov[i++].iov_len;
+			n = ::write(fd, (const uint8_t *) iov[i].iov_base + skip, iov[i].iov_len - skip);
+		}
+		if (n < 0 && errno == EINTR)
+			continue;
+		if (n < 0)
+			return -1;
+		if (!n)
+			break;
+		done += n;
+	}
+
+	return done;
+}
+
 void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 {
 	if (failed())
@@ -63,7 +93,7 @@ void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 	}
 
 	if (i) {
-		int r = ::writev(_fd, iov, i);
+		ssize_t r = writev(_fd, iov, i);
 		if (r < 0)
 			ostrbuf::failure(strerror(errno));
 	}
diff --git a/src/output-file.cc b/src/output-file.cc
index 91f5a23..930be65 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -75,7 +75,7 @@ private:
 		}
 
 		if (i) {
-			int r = _of.writev(iov, i);
+			ssize_t r = _of.writev(iov, i);
 			if (r < 0)
 				ostrbuf::failure(strerror(errno));
 		}
@@ -320,7 +320,7 @@ ssize_t output_file::writev(const struct iovec *iov, int iovcnt)
 
 	pthread_mutex_lock(&_write_mutex);
 
-	n = ::writev(_fd, iov, iovcnt);
+	n = ostrbuf_fd::writev(_fd, iov, iovcnt);
 	if (n > 0) {
 		_size += n;
 		if (_size >= _max_size && !_rotate_pending) {
-- 
2.43.0


From 62f84e2c7a28eaab4739ad8f0d0797ba110a6127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:32 +0000
Subject: [PATCH 19/38] fix: output_tee must not drop buffered data when
 destroyed

---
 src/output-tee.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/output-tee.cc b/src/output-tee.cc
index 11b5bba..9cdcd0b 100644
--- a/src/output-tee.cc
+++ b/src/output-tee.cc
@@ -41,6 +41,10 @@ output_tee::output_tee(output* o0, output* o1, unsigned int buffer_capacity) :
 
 output_tee::~output_tee()
 {
+	// Whatever is still buffered here belongs before the footers of our downstream outputs
+	if (_ostrbuf->size())
+		_ostrbuf->flush();
+
 	// Footer is generated by our downstream outputs
 	// footer();
 }
-- 
2.43.0


From 669cefa45004959ce0957342d32d4e381666d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:45 +0000
Subject: [PATCH 20/38] fix: ostrbuf_stdio must not write past lost data

---
 src/ostrbuf-stdio.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ostrbuf-stdio.cc b/src/ostrbuf-stdio.cc
index 8a73c90..d485ff3 100644
--- a/src/ostrbuf-stdio.cc
+++ b/src/ostrbuf-stdio.cc
@@ -47,8 +47,8 @@ void ostrbuf_stdio::do_flush(const uint8_t *data, size_t len)
 	if (_size)
 		fwrite(_data, 1, _size, _file);
 
-	// Flush un-buffered data
-	if (len)
+	// Flush un-buffered data, unless what goes before it was lost
+	if (len && !ferror(_file))
 		fwrite(data, 1, len, _file);
 
 	if (ferror(_file))
-- 
2.43.0


From b1f65b8886126d3cc87e1227cd28079fc932789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:36 +0000
Subject: [PATCH 21/38] fix: hexdump with zero line width must not loop forever

---
 src/format-basic.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index b6dc737..dc83a34 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -68,19 +68,22 @@ format_basic::format_basic(const char *fields) :
 
 static void do_hexdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t n, const hogl::arg_xdump::format& xf)
 {
+	// Line width of zero means a single line
+	const unsigned int line_width = xf.line_width ? xf.line_width : n;
+
 	unsigned int offset;
-	for (offset = 0; offset < n; offset += xf.line_width) {
+	for (offset = 0; offset < n; offset += line_width) {
 		sb.printf("\n\t%03d: ", offset);
 
 		unsigned int i;
-		for (i = 0; i < xf.line_width; i++) {
+		for (i = 0; i < line_width; i++) {
 			if ((i + offset) < n)
 				sb.printf("%02x ", data[offset + i]);
 			else
 				sb.push_back("   ");
 		}
 		sb.push_back("  ");
-		for (i = 0; i < xf.line_width && ((i + offset) < n); i++) {
+		for (i = 0; i < line_width && ((i + offset) < n); i++) {
 			uint8_t b = data[offset + i];
 			sb.push_back(isprint(b) ? b : '.');
 		}
-- 
2.43.0


From bc3167c76aa1b150da78c26be3e2f86aff7c05ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:36 +0000
Subject: [PATCH 22/38] fix: xdump without data or byte width must not crash

---
 src/format-basic.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index dc83a34..e21e09c 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -150,10 +150,16 @@ static const char* __dbl_fmt(unsigned int pr)
 
 static void do_xdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t len)
 {
+	// No room for the dump in the record
+	if (len < sizeof(arg_xdump::format)) {
+		sb.push_back("null");
+		return;
+	}
+
 	const arg_xdump::format& xf = *(const arg_xdump::format *) data;
 
 	const uint8_t *ptr = data + sizeof(arg_xdump::format);
-	len = (len - sizeof(arg_xdump::format)) / xf.byte_width;
+	len = (len - sizeof(arg_xdump::format)) / (xf.byte_width ? xf.byte_width : 1);
 
 	switch (xf.type) {
 	case 'H':
-- 
2.43.0


From ef636c502e0bb703995b50d804059906406d5d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 23/38] fix: raw parser must not read past the record buffer

---
 tools/raw-parser.cc  | 19 ++++++++++++++-----
 tools/raw-parser.hpp | 23 +++++++++++++++++++----
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/tools/raw-parser.cc b/tools/raw-parser.cc
index dda1b62..6098c6a 100644
--- a/tools/raw-parser.cc
+++ b/tools/raw-parser.cc
@@ -77,6 +77,9 @@ void raw_parser::read_args(hogl::record &r)
 		unsigned int type = r.get_arg_type(i);
 		unsigned long n;
 
+		// Number of bytes left in the record buffer
+		unsigned long room = _max_record_size - record::header_size() - offset;
+
 		switch (type) {
 		case arg::NONE:
 			return;
@@ -88,7 +91,7 @@ void raw_parser::read_args(hogl::record &r)
 			r.set_arg_type(i, hogl::arg::CSTR);
 			// fall through
 		case arg::CSTR:
-			n = read_str<uint16_t>((char *) r.argval + offset, "cstr-arg");
+			n = read_str<uint16_t>((char *) r.argval + offset, room, "cstr-arg");
 			r.set_arg_data(i, offset, n - 1);
 			offset += n;
 			break;
@@ -96,9 +99,9 @@ void raw_parser::read_args(hogl::record &r)
 		case arg::XDUMP:
 		case arg::RAW:
 			if (_ver == V1)
-				n = read_blob<uint16_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint16_t>((char *) r.argval + offset, room, "raw-arg");
 			else
-				n = read_blob<uint32_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint32_t>((char *) r.argval + offset, room, "raw-arg");
 
 			r.set_arg_data(i, offset, n);
 			offset += n;
@@ -115,10 +118,16 @@ void raw_parser::read_args(hogl::record &r)
 }
 
 raw_parser::raw_parser(hogl::rdbuf &in, unsigned int ver, unsigned int max_record_size) :
-	_in(in), _ver(ver)
+	_in(in), _record(0), _ring_name(0), _ver(ver), _max_record_size(max_record_size)
 {
 	reset();
 
+	if (max_record_size < record::header_size() + 16 * 8) {
+		_error << "init: max record size is too small";
+		_failed = true;
+		return;
+	}
+
 	// Allocate nicely aligned buffer for the dummy record 
 	// we're going to populate with data read from the file.
 	int err = posix_memalign((void **)&_record, 64, max_record_size);
@@ -171,7 +180,7 @@ static bool valid_name(const char *str)
 
 void raw_parser::read_name(char *str, const char *stage)
 {
-	read_str<uint8_t>(str, stage);
+	read_str<uint8_t>(str, _area.MAX_NAME_LEN, stage);
 
 	if (_failed) return;
 
diff --git a/tools/raw-parser.hpp b/tools/raw-parser.hpp
index 1177e8b..113c728 100644
--- a/tools/raw-parser.hpp
+++ b/tools/raw-parser.hpp
@@ -70,6 +70,7 @@ private:
 	char              *_ring_name;   // ringbuffer name for last record
 
 	unsigned int       _ver;
+	unsigned long      _max_record_size; // size of the record buffer
 
 	// Read uint from the input stream
 	template <typename T>
@@ -84,9 +85,10 @@ private:
 		return v;
 	}
 
-	// Read a blob from the input stream
+	// Read a blob from the input stream.
+	// Room is the number of bytes available in the data buffer.
 	template <typename T>
-	unsigned long read_blob(char *data, const char *stage = "")
+	unsigned long read_blob(char *data, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
@@ -94,6 +96,12 @@ private:
 		if (_failed || !len)
 			return 0;
 
+		if (len > room) {
+			_error << "format: no room for the blob @ " << stage;
+			_failed = true;
+			return 0;
+		}
+
 		_failed = ! _in.read(data, len);
 		if (_failed) {
 			_error << "input: failed to read blob @ " << stage;
@@ -105,12 +113,19 @@ private:
 	// Read a string from the input stream
 	// Strings are guarantied to be null-terminated
 	// Returns string length including the null-terminator.
+	// Room must include the space for the null-terminator.
 	template <typename T>
-	unsigned long read_str(char *str, const char *stage = "")
+	unsigned long read_str(char *str, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
-		unsigned long len = read_blob<T>(str, stage);
+		if (!room) {
+			_error << "format: no room for the string @ " << stage;
+			_failed = true;
+			return 0;
+		}
+
+		unsigned long len = read_blob<T>(str, room - 1, stage);
 
 		if (_failed) return 0;
 
-- 
2.43.0


From f9760046dae42c7f06a5e87643e886180b240b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:06 +0000
Subject: [PATCH 24/38] fix: raw parser must keep empty global strings

---
 tools/raw-parser.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/raw-parser.cc b/tools/raw-parser.cc
index 6098c6a..204b0fa 100644
--- a/tools/raw-parser.cc
+++ b/tools/raw-parser.cc
@@ -92,7 +92,13 @@ void raw_parser::read_args(hogl::record &r)
 			// fall through
 		case arg::CSTR:
 			n = read_str<uint16_t>((char *) r.argval + offset, room, "cstr-arg");
-			r.set_arg_data(i, offset, n - 1);
+			if (type == arg::GSTR && n == 1) {
+				// Keep empty global strings. Empty CSTR is a null pointer.
+				r.clear_arg_type(i);
+				r.set_arg_type(i, hogl::arg::GSTR);
+				r.set_arg_val64(i, (unsigned long) ((char *) r.argval + offset));
+			} else
+				r.set_arg_data(i, offset, n - 1);
 			offset += n;
 			break;
 
-- 
2.43.0


From 1a16983430f9a87d9116e5d6c99f932f0b7d4057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:19 +0000
Subject: [PATCH 25/38] fix: recovery must not drop records that have the same
 timestamp

---
 tools/recovery-engine.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/recovery-engine.hpp b/tools/recovery-engine.hpp
index dc049ec..183cdd0 100644
--- a/tools/recovery-engine.hpp
+++ b/tools/recovery-engine.hpp
@@ -59,7 +59,8 @@ private:
 		}
 	};
 
-	typedef std::set<record_entry, record_sorter> record_set;
+	// Records of the same ring and of other rings may have the same timestamp
+	typedef std::multiset<record_entry, record_sorter> record_set;
 	typedef std::map<uint64_t, area*> area_map;
 	typedef std::map<uint64_t, timesource*> timesource_map;
 	typedef std::map<uint64_t, ostrbuf *>   ostrbuf_map;
-- 
2.43.0


From 650c4970d004bc77599883a8129c205037df836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:19 +0000
Subject: [PATCH 26/38] fix: recovery must relocate global strings in all
 arguments

---
 tools/recovery-engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 7eef43e..2328982 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -311,7 +311,7 @@ void recovery_engine::fixup_records(ringbuf *ring)
 		r->area = fixup_area(r->area);
 
 		unsigned int i;
-		for (i=0; i < 8; i++) {
+		for (i=0; i < record::NARGS; i++) {
 			unsigned int type = r->get_arg_type(i);
 			switch (type) {
 			case arg::GSTR:
-- 
2.43.0


From 5326c3685a52236eb0e7a7350e349d8f329035c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:19 +0000
Subject: [PATCH 27/38] fix: recovery of entire rings must include all records

---
 tools/recovery-engine.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 2328982..5c0e883 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -166,9 +166,9 @@ public:
 			return false;
 
 		if (reset) {
-			// Reset head/tail for dumping the entire ring
-			r->_head = 0;
-			r->_tail = r->_capacity;
+			// Reset head for dumping the entire ring.
+			// i.e. everything except the record that is next to be written.
+			r->_head = r->_tail;
 		}
 
 		return true;
-- 
2.43.0


From 4b9af9e48a541c07a05054a2739999ad38a5a8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:33 +0000
Subject: [PATCH 28/38] fix: recovery must not relocate shared section names
 twice

---
 tools/recovery-engine.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 5c0e883..2f59cd2 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -88,14 +88,18 @@ public:
 		if (!a->_name)
 			return 0;
 
-		// Fixup section names
-		a->_section = (const char **) core.remap(a->_section, sizeof(char *) * a->count());
-		if (!a->_section)
+		// Fixup section names.
+		// Note that areas can share the array of names (ie default sections),
+		// hence the names are not remapped in place.
+		const char **names = (const char **) core.remap(a->_section, sizeof(char *) * a->count());
+		if (!names)
 			return 0;
 
+		a->_section = new const char* [a->count()];
+
 		unsigned int i;
 		for (i=0; i < a->count(); ++i) {
-			a->_section[i] = (const char *) core.remap((void *) a->_section[i]);
+			a->_section[i] = (const char *) core.remap((void *) names[i]);
 			if (a->_section[i]) continue;
 
 			// Section name not found, likely because it was set to default (ie mmaped from hogl.so)
@@ -103,6 +107,7 @@ public:
 			// Otherwise set to a dummy string to avoid segfaults in the optimized header formats.
 
 			if (i == 0 && a->count() == 6) {
+				delete [] a->_section;
 				a->_section = default_section_names;
 				break;
 			}
-- 
2.43.0


From 0a70c5bd89a78d843d7bb536728ca77beec08ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:16 +0000
Subject: [PATCH 29/38] fix: cpu mask must select exactly the given cpus

---
 src/schedparam.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index 3f15ad3..76afb2b 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -185,8 +185,8 @@ static int parse_cpumask(const std::string& str, cpumask& mask)
 		return errno;
 	if (eptr != sptr + str.size())
 		return EINVAL;
-	for (unsigned int i=0; i < mask.ncpus; i++)
-		if (m & (1<<i)) mask.set(i);
+	for (unsigned int i=0; i < mask.ncpus && i < 64; i++)
+		if (m & (1ULL<<i)) mask.set(i);
 	return 0;
 }
 
-- 
2.43.0


From b21a2739630d076b624f6775cb3b2981d492bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:16 +0000
Subject: [PATCH 30/38] fix: cpu list must not truncate large cpu numbers

---
 src/schedparam.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index 76afb2b..a4c273e 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -151,7 +151,7 @@ struct cpumask {
 static int parse_cpulist(const std::string& str, cpumask& mask)
 {
 	const char *p = str.c_str();
-	unsigned int a, b;
+	unsigned long a, b;
 	do {
 		if (!isdigit(*p)) return EINVAL;
 
-- 
2.43.0


From 2c83638caad172f3f2f9f912990e33c65911738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:16 +0000
Subject: [PATCH 31/38] fix: reject cpu mask without digits

---
 src/schedparam.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index a4c273e..94ce480 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -183,7 +183,7 @@ static int parse_cpumask(const std::string& str, cpumask& mask)
 	unsigned long long m = std::strtoull(sptr, &eptr, 0);
 	if (errno) 
 		return errno;
-	if (eptr != sptr + str.size())
+	if (eptr == sptr || eptr != sptr + str.size())
 		return EINVAL;
 	for (unsigned int i=0; i < mask.ncpus && i < 64; i++)
 		if (m & (1ULL<<i)) mask.set(i);
-- 
2.43.0


From 316021dbfefca840c97227a014b5b9ad151ef13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:57 +0000
Subject: [PATCH 32/38] fix: C interface must take arguments of type bool, char
 and long long

---
 include/hogl/c-api/post.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index c10119b..4e7af20 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -124,6 +124,22 @@ do {									\
 			un.s64 = *(int8_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), bool)) {	\
+			un.u64 = *(bool *)__hogl_p;				\
+			args[i].type = HOGL_ARG_UINT32;				\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), char)) {	\
+			un.s64 = *(char *)__hogl_p;				\
+			args[i].type = HOGL_ARG_INT32;				\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), unsigned long long)) {	\
+			un.u64 = *(unsigned long long *)__hogl_p;				\
+			args[i].type = HOGL_ARG_UINT64;				\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), long long)) {	\
+			un.s64 = *(long long *)__hogl_p;				\
+			args[i].type = HOGL_ARG_INT64;				\
+		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), void *)) {	\
 			un.u64 = (unsigned long) __hogl_x;			\
 			args[i].type = HOGL_ARG_POINTER;			\
-- 
2.43.0


From 08872eea8bf7eb1dfe1f9cc4d97b34091e1d1d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:57 +0000
Subject: [PATCH 33/38] fix: C interface must take pointers to any type

---
 include/hogl/c-api/post.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index 4e7af20..a2650c1 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -140,8 +140,8 @@ do {									\
 			un.s64 = *(long long *)__hogl_p;				\
 			args[i].type = HOGL_ARG_INT64;				\
 		} else								\
-		if (__builtin_types_compatible_p (typeof(__hogl_x), void *)) {	\
-			un.u64 = (unsigned long) __hogl_x;			\
+		if (__builtin_classify_type (__hogl_x) == 5 /* pointer */) {	\
+			un.u64 = *(unsigned long *)__hogl_p;			\
 			args[i].type = HOGL_ARG_POINTER;			\
 		} else {							\
 			un.u64 = 0;						\
-- 
2.43.0


From 43647de7936e106771595c8f7b25b469c379f2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:58 +0000
Subject: [PATCH 34/38] fix: C interface must accept null strings

---
 include/hogl/c-api/post.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index a2650c1..bc2ddf4 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -59,7 +59,7 @@
 static inline void __hogl_strarg(struct hogl_arg *arg, const char *str)
 {
 	arg->type = HOGL_ARG_CSTR;
-	arg->len  = strlen(str);
+	arg->len  = str ? strlen(str) : 0;
 	arg->val  = (unsigned long) str;
 }
 
-- 
2.43.0


From fd2ed0cd807e5c25d73900cf97790064fc659b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:16 +0000
Subject: [PATCH 35/38] fix: C interface must report failure to create an
 output

---
 src/c-api.cc | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/c-api.cc b/src/c-api.cc
index d2ad174..c66bfac 100644
--- a/src/c-api.cc
+++ b/src/c-api.cc
@@ -27,6 +27,8 @@
 #include <stdarg.h>
 #include <string.h>
 
+#include <exception>
+
 #include "hogl/detail/args.hpp"
 #include "hogl/format-basic.hpp"
 #include "hogl/output-file.hpp"
@@ -194,23 +196,34 @@ extern "C" hogl_output_t hogl_new_output_file(const char *name, hogl_format_t _f
 					_opts->schedparam.cpu_affinity ? _opts->schedparam.cpu_affinity : "");
 	}
 	hogl::format *fmt = (hogl::format *) _fmt;
-	hogl::output_file *out = new hogl::output_file(name, *fmt, opts);
-	return out;
+	try {
+		return new hogl::output_file(name, *fmt, opts);
+	} catch (const std::exception &) {
+		if (_opts)
+			delete opts.schedparam;
+		return 0;
+	}
 }
 
 
 extern "C" hogl_output_t hogl_new_output_plainfile(const char *name, hogl_format_t _fmt)
 {
 	hogl::format *fmt = (hogl::format *) _fmt;
-	hogl::output_plainfile *out = new hogl::output_plainfile(name, *fmt);
-	return out;
+	try {
+		return new hogl::output_plainfile(name, *fmt);
+	} catch (const std::exception &) {
+		return 0;
+	}
 }
 
 extern "C" hogl_output_t hogl_new_output_pipe(const char *cmd, hogl_format_t _fmt)
 {
 	hogl::format *fmt = (hogl::format *) _fmt;
-	hogl::output_pipe *out = new hogl::output_pipe(cmd, *fmt);
-	return out;
+	try {
+		return new hogl::output_pipe(cmd, *fmt);
+	} catch (const std::exception &) {
+		return 0;
+	}
 }
 
 extern "C" void hogl_delete_output(hogl_output_t _out)
-- 
2.43.0


From d94a35120b5e99251f0838481f5877754d0c2d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:17 +0000
Subject: [PATCH 36/38] fix: C post macro lost the value of an argument that
 used a variable named un

---
 include/hogl/c-api/post.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index bc2ddf4..e5a7350 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -81,73 +81,73 @@ do {									\
 			int16_t  s16;						\
 			double   dbl;						\
 			float    flt;						\
-		} un;								\
+		} __hogl_un;							\
 		typeof (a) __hogl_x = (a);					\
 		const uint8_t *__hogl_p = (const uint8_t *) &__hogl_x;			\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), float)) {	\
-			un.dbl = *(float *)__hogl_p;					\
+			__hogl_un.dbl = *(float *)__hogl_p;					\
 			args[i].type = HOGL_ARG_DOUBLE;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), double)) {	\
-			un.dbl = *(double *)__hogl_p;					\
+			__hogl_un.dbl = *(double *)__hogl_p;					\
 			args[i].type = HOGL_ARG_DOUBLE;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), uint64_t)) {\
-			un.u64 = *(uint64_t *)__hogl_p;				\
+			__hogl_un.u64 = *(uint64_t *)__hogl_p;				\
 			args[i].type = HOGL_ARG_UINT64;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), int64_t)) {	\
-			un.s64 = *(int64_t *)__hogl_p;					\
+			__hogl_un.s64 = *(int64_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT64;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), uint32_t)) {\
-			un.u64 = *(uint32_t *)__hogl_p;				\
+			__hogl_un.u64 = *(uint32_t *)__hogl_p;				\
 			args[i].type = HOGL_ARG_UINT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), int32_t)) {	\
-			un.s64 = *(int32_t *)__hogl_p;					\
+			__hogl_un.s64 = *(int32_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), uint16_t)) {\
-			un.u64 = *(uint16_t *)__hogl_p;				\
+			__hogl_un.u64 = *(uint16_t *)__hogl_p;				\
 			args[i].type = HOGL_ARG_UINT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), int16_t)) {	\
-			un.s64 = *(int16_t *)__hogl_p;					\
+			__hogl_un.s64 = *(int16_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), uint8_t)) {	\
-			un.u64 = *(uint8_t *)__hogl_p;					\
+			__hogl_un.u64 = *(uint8_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_UINT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), int8_t)) {	\
-			un.s64 = *(int8_t *)__hogl_p;					\
+			__hogl_un.s64 = *(int8_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), bool)) {	\
-			un.u64 = *(bool *)__hogl_p;				\
+			__hogl_un.u64 = *(bool *)__hogl_p;				\
 			args[i].type = HOGL_ARG_UINT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), char)) {	\
-			un.s64 = *(char *)__hogl_p;				\
+			__hogl_un.s64 = *(char *)__hogl_p;				\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), unsigned long long)) {	\
-			un.u64 = *(unsigned long long *)__hogl_p;				\
+			__hogl_un.u64 = *(unsigned long long *)__hogl_p;				\
 			args[i].type = HOGL_ARG_UINT64;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), long long)) {	\
-			un.s64 = *(long long *)__hogl_p;				\
+			__hogl_un.s64 = *(long long *)__hogl_p;				\
 			args[i].type = HOGL_ARG_INT64;				\
 		} else								\
 		if (__builtin_classify_type (__hogl_x) == 5 /* pointer */) {	\
-			un.u64 = *(unsigned long *)__hogl_p;			\
+			__hogl_un.u64 = *(unsigned long *)__hogl_p;			\
 			args[i].type = HOGL_ARG_POINTER;			\
 		} else {							\
-			un.u64 = 0;						\
+			__hogl_un.u64 = 0;						\
 			args[i].type = HOGL_ARG_NONE;				\
 		}								\
-		args[i].val = un.u64;						\
+		args[i].val = __hogl_un.u64;						\
 	}									\
 } while(0)
 
-- 
2.43.0


From efe3382e28cd9250ef5801acd44f36a19fcc57e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:17 +0000
Subject: [PATCH 37/38] fix: C post macro evaluated the area and the section
 twice

---
 include/hogl/c-api/post.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index e5a7350..6c10420 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -163,11 +163,13 @@ do {									\
  */
 #define hogl_post(area, sect, ...)						\
 do {										\
-	if (hogl_area_test(area, sect)) {					\
+	const hogl_area_t __hogl_area = (area);					\
+	const unsigned int __hogl_sect = (sect);				\
+	if (hogl_area_test(__hogl_area, __hogl_sect)) {				\
 		struct hogl_arg __hogl_args[HOGL_PP_NARGS(__VA_ARGS__)];	\
 		unsigned int __hogl_i = 0;					\
 		HOGL_PP_FOR_EACH(hogl_setarg_, __VA_ARGS__);			\
-		hogl_post_(HOGL_PP_NARGS(__VA_ARGS__), area, sect, __hogl_args);\
+		hogl_post_(HOGL_PP_NARGS(__VA_ARGS__), __hogl_area, __hogl_sect, __hogl_args);\
 	}									\
 } while(0)
 
-- 
2.43.0


From c819cfad6fa4612fb687c9f36857e13c02964a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:52 +0000
Subject: [PATCH 38/38] fix: recovery missed output handlers at the very end of
 a memory segment

---
 tools/recovery-engine.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 2f59cd2..8786350 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -377,19 +377,25 @@ void recovery_engine::find_and_fixup_outbufs()
 		unsigned long size = s->size;
 		uint8_t *ptr = s->addr;
 
-		while (size >= sizeof(hogl::output)) {
+		// The magic signature is preceeded by the vtable pointer,
+		// what follows the signature is smaller than the object.
+		const unsigned long tail = sizeof(hogl::output) - sizeof(void *);
+
+		while (size >= tail) {
 			ptr = (uint8_t *) memmem(ptr, size, &hogl::output_magic, sizeof(hogl::output_magic));
 			if (!ptr)
 				break;
 
-			if (!s->inside(ptr, sizeof(hogl::output)))
+			if (!s->inside(ptr, tail))
 				break;
 
 			// Looks like we found a valid output handler.
 			// Try to fixup the ostrbuf which contains buffered data.
-			hogl::output *o = output_validator::fixup(_core, ptr);
+			hogl::output *o = 0;
+			if (s->inside(ptr - sizeof(void *), sizeof(hogl::output)))
+				o = output_validator::fixup(_core, ptr);
 			if (o && fixup_ostrbuf(o->get_ostrbuf())) {
-				ptr += sizeof(hogl::output);
+				ptr += tail;
 			} else {
 				// Validation failed.
 				// Advance by one byte and continue scanning.
-- 
2.43.0

