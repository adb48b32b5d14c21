From 86e5fed5536cf63875c2b9196477707f7dadf70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 01/75] fix: pad numeric log keys on the left so that distinct
 keys never share a file name

---
 common/logging/log_key.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/logging/log_key.h b/common/logging/log_key.h
index c552103..60040d7 100644
--- a/common/logging/log_key.h
+++ b/common/logging/log_key.h
@@ -52,7 +52,7 @@ inline std::string logKeyName(int key)
     case ESTIMATE:
         return "ESTIMATE";
     default:
-        return fmt::format("LOG_KEY_{:0^4}", key);
+        return fmt::format("LOG_KEY_{:0>4}", key);
     }
 }
 
-- 
2.43.0


From 92d6b10c60b0312067e7b3dbdc9b1a34f5833499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 02/75] fix: log reader stops at a torn record, a read error or
 a missing stream file

get() now reports a record that was cut short, and a stream that can't be
read any further is finished, instead of being returned to forever.
---
 common/logging/log_reader.cxx |  2 +-
 common/logging/log_reader.h   | 22 ++++++++++++++++------
 sim/sensors/gnss.cxx          | 15 ++++++++++++---
 tools/post_process.cxx        | 25 ++++++++++++++++++++-----
 tools/verify_ephemeris.cxx    | 15 ++++++++++++---
 5 files changed, 61 insertions(+), 18 deletions(-)

diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index 6dc4295..56134b6 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -90,7 +90,7 @@ Error StreamReader::open(const std::string& filename)
 
 bool StreamReader::done()
 {
-    return file_.eof();
+    return next_stamp_ == MAX_TIME;
 }
 
 LogReader::LogReader(const std::string& directory)
diff --git a/common/logging/log_reader.h b/common/logging/log_reader.h
index 87a0857..f7dd79f 100644
--- a/common/logging/log_reader.h
+++ b/common/logging/log_reader.h
@@ -27,11 +27,15 @@ class StreamReader : public utils::NonCopyable
 
     Error open(const std::string& filename);
 
+    // Returns false if the record was cut short (truncated or unreadable file), in which case the
+    // contents of the arguments must not be used.
     template <typename... T>
-    void get(T&... x)
+    bool get(T&... x)
     {
         read(file_, x...);
+        const bool complete = !file_.fail();
         readStamp();
+        return complete;
     }
 
     bool done();
@@ -45,17 +49,18 @@ class StreamReader : public utils::NonCopyable
     {
         deserialize(file_, next_stamp_.sec);
         deserialize(file_, next_stamp_.nsec);
-        if (file_.eof())
+        if (file_.fail())
         {
+            // End of file, or the rest of it can't be read
             next_stamp_ = MAX_TIME;
         }
     }
 
     std::string filename_ = "";
     std::ifstream file_;
-    UTCTime next_stamp_;
-    int key_;
-    int num_records_;
+    UTCTime next_stamp_ = MAX_TIME;
+    int key_ = -1;
+    int num_records_ = 0;
 };
 
 class LogReader
@@ -86,7 +91,12 @@ class LogReader
         auto& stream = streams_.at(key);
         Entry<T...> out;
         out.t = stream.nextStamp();
-        std::apply([&](auto&... args) { stream.get(args...); }, out.data);
+        const bool complete =
+            std::apply([&](auto&... args) { return stream.get(args...); }, out.data);
+        if (!complete)
+        {
+            out.t = MAX_TIME;
+        }
         return out;
     }
 
diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index 4128fe9..48b5114 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -66,21 +66,30 @@ void GnssSim::load()
     log.setCallback(logging::GPS_EPH,
                     [&](const UTCTime& t, int key, logging::StreamReader& reader) {
                         ephemeris::GPSEphemeris eph;
-                        reader.get(eph);
+                        if (!reader.get(eph))
+                        {
+                            return;
+                        }
                         ephCb(eph, make_out(gps_));
                         gps_ephemerides_.push_back(std::make_tuple(t, eph));
                     });
     log.setCallback(logging::GLO_EPH,
                     [&](const UTCTime& t, int key, logging::StreamReader& reader) {
                         ephemeris::GlonassEphemeris eph;
-                        reader.get(eph);
+                        if (!reader.get(eph))
+                        {
+                            return;
+                        }
                         ephCb(eph, make_out(glo_));
                         glo_ephemerides_.push_back(std::make_tuple(t, eph));
                     });
     log.setCallback(logging::GAL_EPH,
                     [&](const UTCTime& t, int key, logging::StreamReader& reader) {
                         ephemeris::GalileoEphemeris eph;
-                        reader.get(eph);
+                        if (!reader.get(eph))
+                        {
+                            return;
+                        }
                         ephCb(eph, make_out(gal_));
                         gal_ephemerides_.push_back(std::make_tuple(t, eph));
                     });
diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index 72dd258..ade125f 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -117,7 +117,10 @@ void loadEphemeris(const std::string& log_dir, ekf::RtkEkfEstimator& ekf)
 
     log_reader.setCallback(logging::LogKey::GPS_EPH, [&](const UTCTime& t, int key, auto& reader) {
         ephemeris::GPSEphemeris eph;
-        reader.get(eph);
+        if (!reader.get(eph))
+        {
+            return;
+        }
         const double dt = (t - eph.toe).toSec();
         if (std::abs(dt) > 7200)
         {
@@ -130,7 +133,10 @@ void loadEphemeris(const std::string& log_dir, ekf::RtkEkfEstimator& ekf)
 
     log_reader.setCallback(logging::LogKey::GAL_EPH, [&](const UTCTime& t, int key, auto& reader) {
         ephemeris::GalileoEphemeris eph;
-        reader.get(eph);
+        if (!reader.get(eph))
+        {
+            return;
+        }
         const double dt = (t - eph.toe).toSec();
         if (std::abs(dt) > 7200)
         {
@@ -143,7 +149,10 @@ void loadEphemeris(const std::string& log_dir, ekf::RtkEkfEstimator& ekf)
 
     log_reader.setCallback(logging::LogKey::GLO_EPH, [&](const UTCTime& t, int key, auto& reader) {
         ephemeris::GlonassEphemeris eph;
-        reader.get(eph);
+        if (!reader.get(eph))
+        {
+            return;
+        }
         const double dt = (t - eph.toe).toSec();
         if (std::abs(dt) > 7200)
         {
@@ -230,7 +239,10 @@ int main(int argc, char** argv)
     log_reader.setCallback(logging::LogKey::IMU_SAMPLE,
                            [&](const UTCTime& t, int key, auto& reader) {
                                meas::ImuSample imu;
-                               reader.get(imu);
+                               if (!reader.get(imu))
+                               {
+                                   return;
+                               }
                                ImuMeas meas;
                                meas.z.accel = imu.accel;
                                meas.z.gyro = imu.gyro;
@@ -240,7 +252,10 @@ int main(int argc, char** argv)
     std::vector<meas::GnssObservation> obs_bundle;
     log_reader.setCallback(logging::LogKey::GNSS_OBS, [&](const UTCTime& t, int key, auto& reader) {
         meas::GnssObservation obs;
-        reader.get(obs);
+        if (!reader.get(obs))
+        {
+            return;
+        }
         if (obs_bundle.empty() || obs_bundle.front().t == obs.t)
         {
             obs_bundle.push_back(obs);
diff --git a/tools/verify_ephemeris.cxx b/tools/verify_ephemeris.cxx
index a4482d2..2465b1b 100644
--- a/tools/verify_ephemeris.cxx
+++ b/tools/verify_ephemeris.cxx
@@ -45,17 +45,26 @@ int main(int argc, char** argv)
 
     auto gps_cb = [&](const UTCTime& t, int key, mc::logging::StreamReader& reader) {
         GPSEphemeris eph;
-        reader.get(eph);
+        if (!reader.get(eph))
+        {
+            return;
+        }
         verify(t, eph);
     };
     auto gal_cb = [&](const UTCTime& t, int key, mc::logging::StreamReader& reader) {
         GalileoEphemeris eph;
-        reader.get(eph);
+        if (!reader.get(eph))
+        {
+            return;
+        }
         verify(t, eph);
     };
     auto glo_cb = [&](const UTCTime& t, int key, mc::logging::StreamReader& reader) {
         GlonassEphemeris eph;
-        reader.get(eph);
+        if (!reader.get(eph))
+        {
+            return;
+        }
         verify(t, eph);
     };
 
-- 
2.43.0


From 34890e10e191e5e76ab0310dd4c50d8fc93ff761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 03/75] fix: make the ephemeris stream formats describe the
 bytes that are written

---
 common/logging/log_format.cxx | 16 ----------------
 common/logging/serialize.cxx  |  2 +-
 2 files changed, 1 insertion(+), 17 deletions(-)

diff --git a/common/logging/log_format.cxx b/common/logging/log_format.cxx
index 0727f19..e185b43 100644
--- a/common/logging/log_format.cxx
+++ b/common/logging/log_format.cxx
@@ -64,10 +64,6 @@ YAML::Node format(const ephemeris::GPSEphemeris& eph)
     node["fit_interval_flag"] = format(eph.fit_interval_flag);
     node["age_of_data_offset"] = format(eph.age_of_data_offset);
     node["tgd"] = format(eph.tgd);
-    node["iode1"] = format(eph.iode1);
-    node["iode2"] = format(eph.iode2);
-    node["iode3"] = format(eph.iode3);
-    node["collected_subframes"] = format(eph.collected_subframes);
     return node;
 }
 YAML::Node format(const ephemeris::GalileoEphemeris& eph)
@@ -114,9 +110,6 @@ YAML::Node format(const ephemeris::GalileoEphemeris& eph)
     node["e1b_hs"] = format(eph.e1b_hs);
     node["e5b_dvs"] = format(eph.e5b_dvs);
     node["e1b_dvs"] = format(eph.e1b_dvs);
-    node["collected_subframes"] = format(eph.collected_subframes);
-    node["time_f"] = format(eph.time_f);
-    node["iod"] = format(eph.iod, 4);
     return node;
 }
 
@@ -140,15 +133,6 @@ YAML::Node format(const ephemeris::GlonassEphemeris& eph)
     node["taun"] = format(eph.taun);
     node["gamn"] = format(eph.gamn);
     node["dtaun"] = format(eph.dtaun);
-    node["frame_flags"] = format(eph.frame_flags_);
-    node["time_mark"] = format(eph.time_mark_);
-    node["tk_h"] = format(eph.tk_h_);
-    node["tk_m"] = format(eph.tk_m_);
-    node["tk_s"] = format(eph.tk_s_);
-    node["tb"] = format(eph.tb_);
-    node["NT"] = format(eph.NT_);
-    node["N4"] = format(eph.N4_);
-    node["NA"] = format(eph.NA_);
     return node;
 }
 
diff --git a/common/logging/serialize.cxx b/common/logging/serialize.cxx
index 4bc5653..0af09b8 100644
--- a/common/logging/serialize.cxx
+++ b/common/logging/serialize.cxx
@@ -107,7 +107,7 @@ DEF_SERIALIZE(ephemeris::GalileoEphemeris,
               ecc, sqrta, omega0, i0, w, omegadot, idot, cuc, cus, crc, crs, cic, cis, ai0, ai1, ai2,
               bgd_e1_e5a, bgd_e1_e5b, e5b_hs, e1b_hs, e5b_dvs, e1b_dvs)
 DEF_SERIALIZE(ephemeris::GlonassEphemeris,
-              gnssID, sat, toe, iode, slot, svh, sva, age, toe, tof, pos, vel, acc, taun, gamn,
+              gnssID, sat, toe, iode, slot, svh, sva, age, tof, pos, vel, acc, taun, gamn,
               dtaun)
 // clang-format on
 
-- 
2.43.0


From 3ff52e78cc67c736853a1e16b756d543b5d54f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 04/75] fix: keep the end time of a log that was closed
 explicitly

---
 common/logging/log_writer.cxx |  2 ++
 common/logging/log_writer.h   | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/common/logging/log_writer.cxx b/common/logging/log_writer.cxx
index 7fc6957..c5ca7fe 100644
--- a/common/logging/log_writer.cxx
+++ b/common/logging/log_writer.cxx
@@ -23,6 +23,7 @@ void Logger::open(const UTCTime& start_time, const std::string& directory)
     utils::removeDirectoryIfExist(directory_);
     utils::makeDirectoryIfNotExist(directory_);
     createManifest(start_time);
+    open_ = true;
 }
 
 void Logger::close(const UTCTime& t_end)
@@ -32,6 +33,7 @@ void Logger::close(const UTCTime& t_end)
         streams_.erase(streams_.begin());
     }
     writeManifest(t_end);
+    open_ = false;
 }
 
 void Logger::createManifest(const UTCTime& start_time)
diff --git a/common/logging/log_writer.h b/common/logging/log_writer.h
index 91d5f05..5488f4b 100644
--- a/common/logging/log_writer.h
+++ b/common/logging/log_writer.h
@@ -66,7 +66,13 @@ class Logger
     Logger(const std::string directory) { open(UTCTime::now(), directory); }
     Logger(const UTCTime& start_time, const std::string directory) { open(start_time, directory); }
 
-    ~Logger() { close(UTCTime::now()); }
+    ~Logger()
+    {
+        if (open_)
+        {
+            close(UTCTime::now());
+        }
+    }
 
     void open(const std::string& directory) { open(UTCTime::now(), directory); }
     void open(const UTCTime& start_time, const std::string& directory);
@@ -90,6 +96,7 @@ class Logger
         it.first->second.init<T...>(directory_, log_id_, key, names);
         manifest_["keys"].push_back(key);
         manifest_["key_names"].push_back(logKeyName(key));
+        open_ = true;
     }
 
     template <typename... T>
@@ -117,6 +124,7 @@ class Logger
     std::experimental::filesystem::path directory_;
     YAML::Node manifest_;
     std::string log_id_;
+    bool open_ = false;
     std::unordered_map<int, Stream> streams_;
 };
 
-- 
2.43.0


From f93bea44d5fd01156aacd20a94d9aa3d951d5d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 05/75] fix: report a directory without any log instead of
 reading past an empty list

---
 common/logging/log_reader.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index 56134b6..c49e3de 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -46,6 +46,7 @@ fs::path getLatestLog(const fs::path& path)
             options.push_back(entry.path());
         }
     }
+    check(!options.empty(), "Unable to find a log in {}", fmt(path));
     std::sort(options.begin(), options.end());
     return fs::path(options.back());
 }
-- 
2.43.0


From 371574f32db7f53fe8f6633cba6124bb98f7934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 06/75] fix: UBX parser gets stuck for ever on a frame without
 payload

---
 parsers/ubx/ubx.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 47145a4..3eb7111 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -226,7 +226,7 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
             break;
         case GOT_LENGTH1:
             length_ |= (uint16_t)byte << 8;
-            parse_state_ = GOT_LENGTH2;
+            parse_state_ = length_ > 0 ? GOT_LENGTH2 : GOT_PAYLOAD;
             if (length_ > BUFFER_SIZE)
             {
                 warn("UBX message 0x{x}-0x{x} is too long ({} > {})",
-- 
2.43.0


From d290de3c2ee1a10ce39196379f07cd051956920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 07/75] fix: reporting an oversize UBX frame throws a format
 error

---
 parsers/ubx/ubx.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 3eb7111..b677e4a 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -229,7 +229,7 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
             parse_state_ = length_ > 0 ? GOT_LENGTH2 : GOT_PAYLOAD;
             if (length_ > BUFFER_SIZE)
             {
-                warn("UBX message 0x{x}-0x{x} is too long ({} > {})",
+                warn("UBX message 0x{:x}-0x{:x} is too long ({} > {})",
                      fmt(message_class_, message_type_, length_, BUFFER_SIZE));
                 num_errors_++;
                 prev_byte_ = byte;
-- 
2.43.0


From 1087490f2c77bc19139a482bb5e9fd45a2200c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 08/75] fix: UBX configuration reads the protocol version
 before it is initialised

---
 parsers/ubx/ubx.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsers/ubx/ubx.h b/parsers/ubx/ubx.h
index 119af75..83ee6a2 100644
--- a/parsers/ubx/ubx.h
+++ b/parsers/ubx/ubx.h
@@ -125,11 +125,11 @@ class Ubx : public async_comm::CommListener
     uint32_t num_errors_ = 0;
     uint32_t num_messages_received_ = 0;
     // local storage
-    volatile bool new_data_;
+    volatile bool new_data_ = false;
 
-    int major_version_;
-    int minor_version_;
-    char module_name_[10];
+    int major_version_ = 0;
+    int minor_version_ = 0;
+    char module_name_[10] = {};
 
     // Serial Port
     void write(const uint8_t byte);
-- 
2.43.0


From 7ae183d895e46c40262aff992169bfcd517278a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 09/75] fix: UBX timeouts depend on wall-clock adjustments

---
 parsers/ubx/ubx.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index b677e4a..432c8f5 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -56,11 +56,11 @@ bool Ubx::getVersion()
     got_ver_ = false;
     sendMessage(CLASS_MON, MON_VER, out_message_, 0);
 
-    auto start = high_resolution_clock::now();
+    auto start = steady_clock::now();
     int dt_ms = 0;
     while (!got_ver_ && dt_ms < TIMEOUT_MS)
     {
-        dt_ms = duration_cast<milliseconds>(high_resolution_clock::now() - start).count();
+        dt_ms = duration_cast<milliseconds>(steady_clock::now() - start).count();
     }
 
     if (got_ver_)
@@ -78,11 +78,11 @@ bool Ubx::waitForResponse()
 {
     using namespace std::chrono;
     got_ack_ = got_nack_ = false;
-    auto start = high_resolution_clock::now();
+    auto start = steady_clock::now();
     int dt_ms = 0;
     while (!got_ack_ && !got_nack_ && dt_ms < TIMEOUT_MS)
     {
-        dt_ms = duration_cast<milliseconds>(high_resolution_clock::now() - start).count();
+        dt_ms = duration_cast<milliseconds>(steady_clock::now() - start).count();
     }
     if (got_ack_)
     {
-- 
2.43.0


From f310740a469e220c17691c7e149defcc670972c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 10/75] fix: terminate the version and module strings of the
 UBX version reply

---
 parsers/ubx/ubx.cxx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 432c8f5..24e707f 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -439,16 +439,19 @@ void Ubx::versionCb()
 void Ubx::extractVersionString(const char *str)
 {
     // Get major version
-    char tmp[5];
+    char tmp[5] = {};
     const char *s = str + 8;
-    for (int j = 0; j < 5; j++)
+    for (size_t j = 0; j < sizeof(tmp) - 1; j++)
     {
         if (*s == '.')
         {
-            tmp[j] = 0;
             ++s;
             break;
         }
+        if (*s == 0)
+        {
+            break;
+        }
         tmp[j] = *s;
         ++s;
     }
@@ -456,11 +459,10 @@ void Ubx::extractVersionString(const char *str)
 
     // Get minor version
     memset(tmp, 0, sizeof(tmp));
-    for (int j = 0; j < 5; j++)
+    for (size_t j = 0; j < sizeof(tmp) - 1; j++)
     {
         if (*s == 0)
         {
-            tmp[j] = 0;
             break;
         }
         tmp[j] = *s;
@@ -472,11 +474,11 @@ void Ubx::extractVersionString(const char *str)
 void Ubx::extractModuleName(const char *str)
 {
     const char *s = str + 4;
-    for (size_t i = 0; i < sizeof(module_name_); i++)
+    memset(module_name_, 0, sizeof(module_name_));
+    for (size_t i = 0; i < sizeof(module_name_) - 1; i++)
     {
         if (*s == 0)
         {
-            module_name_[i] = 0;
             break;
         }
 
-- 
2.43.0


From f8c0b88032a3b7064f8f3877067a91f75bed196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 11/75] fix: survey-in request contains leftovers of earlier
 UBX messages

---
 parsers/ubx/ubx.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 24e707f..1cf8765 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -117,6 +117,7 @@ bool Ubx::sendMessage(uint8_t msg_class, uint8_t msg_id, UbxMessage &message, ui
 
 void Ubx::startSurveyIn()
 {
+    memset(&out_message_, 0, sizeof(CFG_TMODE3_t));
     out_message_.CFG_TMODE3.flags = CFG_TMODE3_t::SURVEY_IN;
     out_message_.CFG_TMODE3.svin_min_dur = 60;   // Wait at least 1 minute
     out_message_.CFG_TMODE3.svin_acc_limit = 3;  // At least within 3 centimeters
-- 
2.43.0


From bc4c8d6eedf0c661c802582951e355ee9317f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 12/75] fix: UBX version reply is read together with leftovers
 of longer messages

---
 parsers/ubx/ubx.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 1cf8765..4217fc6 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -419,7 +419,11 @@ void Ubx::write(const uint8_t *byte, const size_t size)
 
 void Ubx::versionCb()
 {
-    for (int i = 0; i < 20; ++i)
+    // The buffer behind this reply holds leftovers of earlier, longer messages
+    constexpr int EXT_SIZE = sizeof(MON_VER_t::extension[0]);
+    const int ext_bytes =
+        length_ - static_cast<int>(sizeof(MON_VER_t::sw_version) + sizeof(MON_VER_t::hw_version));
+    for (int i = 0; i < 20 && (i + 1) * EXT_SIZE <= ext_bytes; ++i)
     {
         if (strncmp(in_message_.MON_VER.extension[i], "PROTVER=", 8) == 0)
         {
-- 
2.43.0


From 472768db7c3e9098547d39909f86f0644f82495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 13/75] fix: compare the issue of data of GPS subframe 3 with
 the other subframes

---
 common/ephemeris/gps.cxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index f5b44df..9efa648 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -178,7 +178,6 @@ bool GPSEphemeris::frame3(const uint8_t* buf)
     iode3 = getBit<8>(buf, 216);
     idot = getBit<14, Signed>(buf, 224) * P2_43 * PI;
 
-    iode3 = iode;
     collected_subframes |= FRAME3;
 
     return true;
-- 
2.43.0


From b6d15ab1943d8b95445e49a119bd7a366b6a835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 14/75] fix: collect all GPS subframes again after an ephemeris
 was completed

---
 common/ephemeris/gps.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index 9efa648..f0f6681 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -96,6 +96,7 @@ bool GPSEphemeris::parse(const uint8_t* buf, size_t size)
 
     // Reset synchronization
     iode1 = iode2 = iode3 = 0;
+    collected_subframes = 0;
 
     return true;
 }
-- 
2.43.0


From 2adb47798fbbf143ec8b32372a4f443c4f83c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 15/75] fix: date GPS ephemerides around the end of the week
 correctly

---
 common/ephemeris/gps.cxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index f0f6681..f174fc3 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -91,8 +91,14 @@ bool GPSEphemeris::parse(const uint8_t* buf, size_t size)
     dbg("Got all subframes");
 
     // Set toe and toc
-    toe = UTCTime::fromGPS(week, toes * 1000);
-    toc = UTCTime::fromGPS(week, tocs * 1000);
+    // (around the end of the week they may belong to the week before or after the transmission)
+    const auto ref_week = [this](uint32_t secs) {
+        const int dt = static_cast<int>(secs) - static_cast<int>(tow);
+        const int half_week = UTCTime::SEC_IN_WEEK / 2;
+        return dt < -half_week ? week + 1 : dt > half_week ? week - 1 : week;
+    };
+    toe = UTCTime::fromGPS(ref_week(toes), toes * 1000);
+    toc = UTCTime::fromGPS(ref_week(tocs), tocs * 1000);
 
     // Reset synchronization
     iode1 = iode2 = iode3 = 0;
@@ -109,7 +115,7 @@ bool GPSEphemeris::frame1(const uint8_t* buf)
         return false;
     }
     dbg("GOT FRAME 1");
-    // double tow = getBit<17>(buf, 24) * 6.0;
+    tow = getBit<17>(buf, 24) * 6;
     int week_mod = getBit<10>(buf, 48);  // This is the week modulo 2^10
     code_on_L2 = getBit<2>(buf, 58);
     ura = getBit<4>(buf, 60);
-- 
2.43.0


From 92d1fd6bcc5f2bbbf93635c65289c4a4eba2c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 16/75] fix: repeated Galileo words shift the week of a
 completed ephemeris

---
 common/ephemeris/galileo.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 817f3d7..ab4427a 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -173,6 +173,9 @@ bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
     toe = UTCTime::fromGalileo(week, toes * 1000);
     toc = UTCTime::fromGalileo(week, tocs * 1000.0);
 
+    // Collect all words again before reporting the next one
+    collected_subframes = 0x00;
+
     return true;
 }
 
-- 
2.43.0


From 22e315e5949d0af43e04e16036a9911e6c7aa140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 17/75] fix: Galileo parser reads beyond the end of short pages

---
 common/ephemeris/galileo.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index ab4427a..f8ffa4c 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -47,7 +47,12 @@ double GalileoEphemeris::getWavelength(int frequency) const
 
 bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
 {
-    (void)size;
+    if (size < 32)
+    {
+        dbg("Incomplete Galileo Page");
+        return false;
+    }
+
     // swap buffer endianness
     uint8_t buf[64];
     const uint8_t* p = msg;
-- 
2.43.0


From f711a70ae336a336f94927a3e1dedf7c4667f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 18/75] fix: Galileo clock data of another satellite is
 rejected before it is stored

---
 common/ephemeris/galileo.cxx | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index f8ffa4c..27c17e9 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -255,15 +255,7 @@ bool GalileoEphemeris::frame3(const uint8_t* buf)
 bool GalileoEphemeris::frame4(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
-    iod[3] = getBit<10>(buf, 6);
     int svid = getBit<6>(buf, 16);
-    cic = getBit<16, Signed>(buf, 22) * P2_29;
-    cis = getBit<16, Signed>(buf, 38) * P2_29;
-    tocs = getBit<14>(buf, 54) * 60.0;
-    af0 = getBit<31, Signed>(buf, 68) * P2_34;
-    af1 = getBit<21, Signed>(buf, 99) * P2_46;
-    af2 = getBit<6, Signed>(buf, 120) * P2_59;
-
     if (type != 4)
     {
         dbg("Galileo word type 4 error : expected=4, got {}", fmt(type));
@@ -274,6 +266,13 @@ bool GalileoEphemeris::frame4(const uint8_t* buf)
         dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
         return false;
     }
+    iod[3] = getBit<10>(buf, 6);
+    cic = getBit<16, Signed>(buf, 22) * P2_29;
+    cis = getBit<16, Signed>(buf, 38) * P2_29;
+    tocs = getBit<14>(buf, 54) * 60.0;
+    af0 = getBit<31, Signed>(buf, 68) * P2_34;
+    af1 = getBit<21, Signed>(buf, 99) * P2_46;
+    af2 = getBit<6, Signed>(buf, 120) * P2_59;
     collected_subframes |= FRAME4;
     return true;
 }
-- 
2.43.0


From 2a64f1f76a950c32a3fa0a5e59673225964d5700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 19/75] fix: read the Galileo data validity flags from their
 own bits

---
 common/ephemeris/galileo.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 27c17e9..9de51a2 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -284,10 +284,10 @@ bool GalileoEphemeris::frame5(const uint8_t* buf)
     bgd_e1_e5b = getBit<10, Signed>(buf, 57) * P2_32;
     e5b_hs = getBit<2>(buf, 67);
     e1b_hs = getBit<2>(buf, 69);
-    e5b_dvs = getBit<1>(buf, 70);
-    e1b_dvs = getBit<1>(buf, 71);
-    // week = getBit<12>(buf, 72);
-    // tow = getBit<20>(buf, 84); // Use frame 0 for time
+    e5b_dvs = getBit<1>(buf, 71);
+    e1b_dvs = getBit<1>(buf, 72);
+    // week = getBit<12>(buf, 73);
+    // tow = getBit<20>(buf, 85); // Use frame 0 for time
 
     if (type != 5)
     {
-- 
2.43.0


From b610f2d1dce5bbd02907a8e257373bf269f1d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 20/75] fix: date GLONASS ephemerides by the current day, not
 by the day of the almanac

---
 common/ephemeris/glonass.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ephemeris/glonass.cxx b/common/ephemeris/glonass.cxx
index 160649c..00913f4 100644
--- a/common/ephemeris/glonass.cxx
+++ b/common/ephemeris/glonass.cxx
@@ -201,7 +201,7 @@ bool GlonassEphemeris::convertTime()
     static UTCTime Jan1_1996 = UTCTime::fromCalendar(1996, 1, 1, 0, 0, 0);
     UTCTime start_of_year =
         Jan1_1996 + (N4_ - 1) * (3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR) - (3 * 3600);
-    UTCTime start_of_day = start_of_year + (NA_ - 1) * UTCTime::SEC_IN_DAY;
+    UTCTime start_of_day = start_of_year + (NT_ - 1) * UTCTime::SEC_IN_DAY;
 
     // Convert t_k (tof) to UTC
     if (got(FRAME1))
-- 
2.43.0


From 4515810f501aa240bee75f09583e091a889b46ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 21/75] fix: start the satellite cache from the ephemerides at
 every update

---
 common/satellite/satellite_cache.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/satellite/satellite_cache.cxx b/common/satellite/satellite_cache.cxx
index 87ee842..375d705 100644
--- a/common/satellite/satellite_cache.cxx
+++ b/common/satellite/satellite_cache.cxx
@@ -40,6 +40,8 @@ void SatelliteCache::update(const UTCTime& t, const Vec3 rec_pos_ecef, const Sat
 
     check(sat.almanacSize() > 0, "Cannot update satellite cache without almanac");
 
+    // start from the ephemerides, and not from a previous result (which Glonass would integrate on)
+    state.t = INVALID_TIME;
     sat.getState(t, make_out(state));
     double dt = std::numeric_limits<double>::max();
     while (abs(dt) * state.vel.norm() > 1e-3)  // get millimeter-accurate
-- 
2.43.0


From fedf7832b912da9989b10dfc86c3787c3d407586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 22/75] fix: destroy the newest element when popping the back
 of a circular buffer

---
 common/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 5e89fe9..5c61d6c 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -54,8 +54,8 @@ class CircularBuffer
     }
     void pop_back()
     {
+        --tail_;
         tail_->~T();  // call destructor manually without freeing memory
-        tail_--;
     }
 
     template <typename... Args>
-- 
2.43.0


From 482d2425852dc3d002d228b8d3326f9836ae954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 23/75] fix: construct elements inserted into a circular buffer
 before displacing others

---
 common/circular_buffer.h | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 5c61d6c..8797dd7 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -61,37 +61,28 @@ class CircularBuffer
     template <typename... Args>
     void emplace_back(Args&&... args)
     {
-        if (full())
-            pop_front();
+        // There is always one free slot: construct there before displacing the oldest element,
+        // which the arguments may refer to
         new (&*tail_) T(args...);
-        ++tail_;
-    }
-
-    void push_back(const T& obj)
-    {
         if (full())
             pop_front();
-        *tail_ = obj;
         ++tail_;
     }
 
+    void push_back(const T& obj) { emplace_back(obj); }
+
     template <typename... Args>
     void emplace_front(Args&&... args)
     {
+        // There is always one free slot: construct there before displacing the newest element,
+        // which the arguments may refer to
+        new (&*(head_ - 1)) T(args...);
         if (full())
             pop_back();
         --head_;
-        new (&*head_) T(args...);
     }
 
-    void push_front(const T& obj)
-    {
-        if (full())
-            pop_back();
-
-        --head_;
-        *head_ = obj;
-    }
+    void push_front(const T& obj) { emplace_front(obj); }
 
     T* data() { return buf_; }
     const T* data() const { return buf_; }
-- 
2.43.0


From 29fc07b290bd04c3196b99c3b9588c774ff7e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 24/75] fix: align the memory of a circular buffer for its
 elements

---
 common/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 8797dd7..91eaf9a 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -88,7 +88,7 @@ class CircularBuffer
     const T* data() const { return buf_; }
 
  private:
-    uint8_t memory_[SIZE * sizeof(T)];
+    alignas(T) uint8_t memory_[SIZE * sizeof(T)];
     T* buf_ = reinterpret_cast<T*>(memory_);
     iterator end_ = {buf_ + SIZE, this};
     iterator head_ = {buf_, this};
-- 
2.43.0


From 071b2cb11a0e3f3485e9bb117abadf6a110f2998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 25/75] fix: copy the elements of a circular buffer, and not
 its iterators

---
 common/circular_buffer.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 91eaf9a..50fbc61 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -17,6 +17,27 @@ class CircularBuffer
 
     CircularBuffer() = default;
 
+    // The iterators point into this buffer's own memory, so a copy copies the elements
+    CircularBuffer(const CircularBuffer& other) : CircularBuffer()
+    {
+        for (const T& obj : other)
+        {
+            push_back(obj);
+        }
+    }
+    CircularBuffer& operator=(const CircularBuffer& other)
+    {
+        if (this != &other)
+        {
+            clear();
+            for (const T& obj : other)
+            {
+                push_back(obj);
+            }
+        }
+        return *this;
+    }
+
     ~CircularBuffer() { clear(); }
     const_iterator begin() const { return head_; }
     const_iterator end() const { return tail_; }
-- 
2.43.0


From e08f1ab9cc08c3280e41dd81226dec17c4f745dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 26/75] fix: bound the search for the time of transmission

---
 common/satellite/satellite_cache.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/satellite/satellite_cache.cxx b/common/satellite/satellite_cache.cxx
index 375d705..5685b10 100644
--- a/common/satellite/satellite_cache.cxx
+++ b/common/satellite/satellite_cache.cxx
@@ -9,6 +9,9 @@ namespace {
 // static constexpr double MAX_CACHE_DT = 0.0001;
 // static constexpr double MAX_REC_POSITION_DELTA = 0.01;
 
+// maximum number of iterations to find the time of transmission
+static constexpr int MAX_ITERATIONS = 10;
+
 inline double computeSagnac(const Vec3 sat_pos, const Vec3& rec_pos_ecef)
 {
     return OMEGA_EARTH * (sat_pos.x() * rec_pos_ecef.y() - sat_pos.y() * rec_pos_ecef.x()) /
@@ -44,7 +47,9 @@ void SatelliteCache::update(const UTCTime& t, const Vec3 rec_pos_ecef, const Sat
     state.t = INVALID_TIME;
     sat.getState(t, make_out(state));
     double dt = std::numeric_limits<double>::max();
-    while (abs(dt) * state.vel.norm() > 1e-3)  // get millimeter-accurate
+    // get millimeter-accurate (where the satellite changes ephemerides in between, there may be no
+    // solution to converge to)
+    for (int i = 0; i < MAX_ITERATIONS && abs(dt) * state.vel.norm() > 1e-3; ++i)
     {
         // Compute how long it took for the signal to get here (including Sagnac Correction)
         Vec3 los_to_sat = state.pos - rec_pos_ecef;
-- 
2.43.0


From 1635baec97b91d65ddf00e25428dde3121409497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 27/75] fix: do not predict over less than the time
 quantization for inertial measurements

---
 core/ekf/rtk_ekf_estimator.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index d3a6969..41d7594 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -93,7 +93,7 @@ void RtkEkfEstimator::handleImu(const UTCTime& meas_time, const ImuMeas& z)
 
 void RtkEkfEstimator::handleImu(const UTCTime& meas_time, const Input& z)
 {
-    if (meas_time > t())
+    if (meas_time > t().quantized())
     {
         Snapshot& snap = states_.back();
         states_.emplace_back();
-- 
2.43.0


From 1b9cdaae39f9835abe13be8a70a0a7e3ed359fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 28/75] fix: apply every measurement once when one of the same
 time arrives late

---
 core/ekf/rtk_ekf_estimator.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index 4037f19..3675fd0 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -2,6 +2,7 @@
 
 #include <gtest/gtest_prod.h>
 
+#include <iterator>
 #include <set>
 #include <variant>
 #include <vector>
@@ -116,21 +117,32 @@ class RtkEkfEstimator
             }
         }
 
-        auto it = measurements_.insert(Meas{meas_time, z});
-
-        if (meas_time < t())
+        const Meas meas{meas_time, z};
+        const MeasIterator next = measurements_.upper_bound(meas);
+        if (next != measurements_.end() && !(next->t > states_.front().x.t))
         {
-            // Out-of-order measurement.  We need to rewind to apply it.
-            MeasIterator catchup_begin = measurements_.lower_bound(Meas{meas_time, {}});
+            error("Unable to handle measurement with time {}, oldest state in buffer time {}",
+                  fmt(meas_time, states_.front().x.t));
+            return Error::create("cannot handle stale measurement");
+        }
 
-            // rewind the state buffer
-            while (t() > catchup_begin->t)
+        MeasIterator start = measurements_.insert(next, meas);
+
+        if (next != measurements_.end())
+        {
+            // Out-of-order measurement.  Rewind to the last state that none of the measurements after
+            // it have gone into, and apply everything that came after that state.
+            while (!(next->t > t().quantized()))
             {
                 states_.pop_back();
             }
+            while (start != measurements_.begin() && std::prev(start)->t > t().quantized())
+            {
+                --start;
+            }
         }
 
-        rollFilter(it, measurements_.end());
+        rollFilter(start, measurements_.end());
 
         dropOldMeasurements();
 
-- 
2.43.0


From 54cddf3fbaf95282f8a4012b2b5c3033798fbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 29/75] fix: refuse observations of satellites the manager has
 forgotten instead of exiting

---
 core/ekf/rtk_ekf_estimator.cxx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index 41d7594..146510e 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -70,7 +70,10 @@ void RtkEkfEstimator::dropOldMeasurements()
 
 bool RtkEkfEstimator::hasCache(int gnss_id, int sat_num) const
 {
-    return sat_cache_.find(cacheId(gnss_id, sat_num)) != sat_cache_.end();
+    // the satellite manager forgets satellites
+    const satellite::SatelliteBase* sat;
+    return sat_cache_.find(cacheId(gnss_id, sat_num)) != sat_cache_.end() &&
+           sat_manager_.getSat(gnss_id, sat_num, make_out(sat)).ok();
 }
 
 const satellite::SatelliteCache& RtkEkfEstimator::getCache(const UTCTime& t,
@@ -151,10 +154,18 @@ void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
     }
     obsMeas::ZType z;
     z.reserve(obs_bundle.size());
+    std::vector<int> sat_ids;
+    sat_ids.reserve(obs_bundle.size());
     for (const auto& o : obs_bundle)
     {
         check(o.t == meas_time, "all measurement timestamps in a GNSS bundle must match");
+        if (!hasCache(o.gnss_id, o.sat_num))
+        {
+            // forgotten since the measurement was added
+            continue;
+        }
         z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num)});
+        sat_ids.push_back(o.sat_num);
     }
 
     const auto res = update<obsMeas>(make_out(snap()), z, obs_cov_, u());
@@ -165,8 +176,7 @@ void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
             const Vec2& z_i = z[i].z;
             const Vec2 residual_i = res.res().segment<2>(i * 2);
             const Vec2 zhat = z_i - residual_i;
-            const int sat_id = obs_bundle[i].sat_num;
-            log_->log(logging::GPS_OBS_RESIDUAL, meas_time, sat_id, residual_i, z_i, zhat);
+            log_->log(logging::GPS_OBS_RESIDUAL, meas_time, sat_ids[i], residual_i, z_i, zhat);
         }
     }
 }
-- 
2.43.0


From 2869a76366b7fdac95f9f06c3b7f98bad9547542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 30/75] fix: tell the observation update which constellation an
 observation is of

---
 core/ekf/rtk_ekf_estimator.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index 146510e..c1d1db9 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -164,7 +164,7 @@ void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
             // forgotten since the measurement was added
             continue;
         }
-        z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num)});
+        z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num), o.gnss_id});
         sat_ids.push_back(o.sat_num);
     }
 
-- 
2.43.0


From b4352864e0dff58d904f184d3c078d9add5f7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 31/75] fix: drop old states together with the measurements
 that went into them

---
 core/ekf/rtk_ekf_estimator.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index c1d1db9..723f3c7 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -62,7 +62,8 @@ void RtkEkfEstimator::dropOldMeasurements()
 
     const UTCTime t_start = measurements_.crbegin()->t - MAX_DELAY_AGE_S;
     measurements_.erase(measurements_.cbegin(), measurements_.lower_bound(Meas{t_start, {}}));
-    while (states_.front().x.t < t_start)
+    // (compared exactly, to keep the states in step with the measurements)
+    while (t_start > static_cast<const UTCTime&>(states_.front().x.t))
     {
         states_.pop_front();
     }
-- 
2.43.0


From 56e695abc2a14704ce5c0d2275b1310ee9ae243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 32/75] fix: copy the time with the filter state

---
 core/ekf/ekf_gen/ekf_gen_templates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index 8bfd700..9d9104e 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -257,6 +257,7 @@ void {ErrorState}::setZero()
 
 {State}& {State}::operator= (const {State}& other)
 {{
+    t = other.t;
     {COPY_STATE}
     return *this;
 }}
-- 
2.43.0


From 387beacd5de5b231707c55e5e995607b221e0639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 33/75] fix: do not check uninitialised parts of the innovation
 of variable-size measurements

---
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 791d07d..8e8a4bf 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -401,7 +401,8 @@ def sparse_meas_update(cfg, key):
     else:
         inverse = f"llt().solve(MatX::Identity(size_{meas_state.name}, size_{meas_state.name}))"
         inverse = "inverse()"
-        HPHT_impl.append(f"{make_type(Sinv[0,0])} Sinv;")
+        # the rest of it is not used, but checked and multiplied by the rest of the residual
+        HPHT_impl.append(f"{make_type(Sinv[0,0])} Sinv = {make_type(Sinv[0,0])}::Zero();")
         block_args = f"0,0,size_{meas_state.name},size_{meas_state.name}"
         HPHT_impl.append(f"Sinv.block({block_args}) = HPHT.block({block_args}).{inverse};")
     tmp = "\n    ".join(HPHT_impl)
-- 
2.43.0


From 11d9d9bec91ce4773245e4b50b57565da622db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 34/75] fix: do not check uninitialised residuals of
 variable-size measurements

---
 core/ekf/rtk_ekf_impl.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 5e27f4a..a4a1295 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -118,7 +118,7 @@ obsMeas::Residual h<obsMeas>(const obsMeas::ZType& z,
     const math::Quat<double> q_b2e = (x.pose.rotation().inverse() * x.T_I2e.rotation());
     const Vec3 v_I2g_e = q_b2e.rotp(v_I2g_b);
 
-    obsMeas::Residual residual;
+    obsMeas::Residual residual = obsMeas::Residual::Zero();
 
     for (size_t i = 0; i < z.size(); ++i)
     {
@@ -207,7 +207,7 @@ fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z,
           "estimate.  num_sd = {}, num_fix_and_hold = {}",
           fmt(num_sd, num_fix_and_hold));
 
-    fixAndHoldMeas::Residual res;
+    fixAndHoldMeas::Residual res = fixAndHoldMeas::Residual::Zero();
     for (int i = 0; i < num_sd; ++i)
     {
         res[i] = (z[i] - x.sd[i])[0];
-- 
2.43.0


From 4e57b2e164a0b0566931b4dd19586d224179849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 35/75] fix: initialise measurement Jacobians before they are
 filled in and checked

---
 core/ekf/ekf_gen/ekf_gen_templates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index 9d9104e..7229f3f 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -585,6 +585,7 @@ ErrorResult<typename Meas::Residual> update(Out<Snapshot> snap,
     check(isFinite(R), "numerical issues in measurement covariance");
 
     typename Meas::Jac dzdx;
+    dzdx.setZero();
     const typename Meas::Residual res = h<Meas, Args...>(z, snap->x, &dzdx, args...);
     check(isFinite(dzdx), "numerical issues in measurement jacobian");
     check(isFinite(res), "numerical issues in measurement residual");
-- 
2.43.0


From 9a817ac9583e8c6aac572fd74a3ba627f89abcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 36/75] fix: initialise the unused single differences of the
 state derivative, which are checked

---
 core/ekf/rtk_ekf_impl.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index a4a1295..7ae2aa7 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -37,7 +37,7 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dxdu->dVel_dAccel.setIdentity();
     }
 
-    ErrorState xdot;
+    ErrorState xdot = ErrorState::Zero();
     xdot.pose.head<3>() = omega;
     xdot.pose.tail<3>() = x.vel;
     xdot.vel = x.pose.rota(gravity) + acc;
-- 
2.43.0


From 1359ba9d25953bf2b6f7297ebde9dd621cf81162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 37/75] fix: keep what it takes to rewind to any measurement of
 the last second

---
 core/ekf/rtk_ekf_estimator.cxx | 8 +++++---
 core/ekf/rtk_ekf_estimator.h   | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index 723f3c7..6b946dc 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -60,13 +60,15 @@ void RtkEkfEstimator::dropOldMeasurements()
 {
     check(!measurements_.empty(), "cannot process empty buffer");
 
+    // Keep one state to rewind to for any measurement up to MAX_DELAY_AGE_S old, and the measurements
+    // that came after it.
     const UTCTime t_start = measurements_.crbegin()->t - MAX_DELAY_AGE_S;
-    measurements_.erase(measurements_.cbegin(), measurements_.lower_bound(Meas{t_start, {}}));
-    // (compared exactly, to keep the states in step with the measurements)
-    while (t_start > static_cast<const UTCTime&>(states_.front().x.t))
+    while (states_.size() > 1 && !(static_cast<const UTCTime&>(states_[1].x.t) > t_start))
     {
         states_.pop_front();
     }
+    measurements_.erase(measurements_.cbegin(),
+                        measurements_.lower_bound(Meas{states_.front().x.t, {}}));
 }
 
 bool RtkEkfEstimator::hasCache(int gnss_id, int sat_num) const
diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index 3675fd0..c759aba 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -98,7 +98,7 @@ class RtkEkfEstimator
     template <typename T>
     Error addMeasurement(const UTCTime& meas_time, const T& z)
     {
-        if (meas_time < states_.front().x.t)
+        if (static_cast<const UTCTime&>(states_.front().x.t) > meas_time)
         {
             error("Unable to handle measurement with time {}, oldest state in buffer time {}",
                   fmt(meas_time, states_.front().x.t));
-- 
2.43.0


From e10fa18645f9b11c0a9ae5351ac8d67ee5083641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 38/75] fix: correct the filter towards its measurements, and
 not away from them

---
 core/ekf/ekf_gen/ekf_gen_templates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index 7229f3f..acbf045 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -590,7 +590,8 @@ ErrorResult<typename Meas::Residual> update(Out<Snapshot> snap,
     check(isFinite(dzdx), "numerical issues in measurement jacobian");
     check(isFinite(res), "numerical issues in measurement residual");
 
-    const Error err = doUpdate<Meas>(snap, z, dzdx, R, res);
+    // The Jacobian is that of the residual (z - zhat): the correction goes against it
+    const Error err = doUpdate<Meas>(snap, z, dzdx, R, -res);
     if (!err.ok())
     {{
         return err;
-- 
2.43.0


From 074daadc4b20f3b631430ada23f0ed65c46dd364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 39/75] fix: refuse more observations at once than the update
 has room for

---
 core/ekf/rtk_ekf_estimator.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index c759aba..1d9c41a 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -107,6 +107,13 @@ class RtkEkfEstimator
 
         if constexpr (std::is_same_v<T, std::vector<meas::GnssObservation>>)
         {
+            static constexpr size_t MAX_OBS = obsMeas::Residual::RowsAtCompileTime / 2;
+            if (z.size() > MAX_OBS)
+            {
+                warn("{} observations at once, the most there can be is {}", fmt(z.size(), MAX_OBS));
+                return Error::create("too many observations");
+            }
+
             for (const auto& obs : z)
             {
                 if (!hasCache(obs.gnss_id, obs.sat_num))
-- 
2.43.0


From 2291d75a92509efc34836812c79e4a491b0dd4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 40/75] fix: compute the rate of the true anomaly at perigee
 and apogee, too

---
 common/satellite/satellite_state.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 4eb065e..6c22af5 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -44,8 +44,7 @@ Error eph2Sat(const UTCTime& t,
     const double ekdot = mkdot / (1.0 - eph.ecc * cek);
 
     const double tak = atan2(sqrt(1.0 - eph.ecc * eph.ecc) * sek, cek - eph.ecc);
-    const double takdot =
-        sek * ekdot * (1.0 + eph.ecc * cos(tak)) / (sin(tak) * (1.0 - eph.ecc * cek));
+    const double takdot = ekdot * sqrt(1.0 - eph.ecc * eph.ecc) / (1.0 - eph.ecc * cek);
 
     const double phik = tak + eph.w;
     const double sphik2 = sin(2.0 * phik);
-- 
2.43.0


From 0cd5a97219a72acd09e7dbbf66184b4615ba4d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 41/75] fix: count the time of a satellite clock polynomial
 from its own reference time

---
 common/satellite/satellite_state.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 6c22af5..60f466d 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -92,13 +92,13 @@ Error eph2Sat(const UTCTime& t,
     sat_state->vel.z() = ypkdot * sik + ypk * cik * ikdot;
 
     const double clk_dt = (t - eph.toc).toSec();
-    double dts = eph.af0 + eph.af1 * dt + eph.af2 * clk_dt * clk_dt;
+    double dts = eph.af0 + eph.af1 * clk_dt + eph.af2 * clk_dt * clk_dt;
 
     // Correct for relativistic effects on the satellite clock
     dts -= 2.0 * sqrt(GM_EARTH * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
 
     sat_state->clk(0) = dts;                           // satellite clock bias (sec)
-    sat_state->clk(1) = (eph.af1 + eph.af2 * clk_dt);  // satellite drift rate (sec/s)
+    sat_state->clk(1) = (eph.af1 + 2.0 * eph.af2 * clk_dt);  // satellite drift rate (sec/s)
     sat_state->t = t;
 
     return Error::none();
-- 
2.43.0


From df70a60fcdddc76517c156f62a9523e0b56f6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 42/75] fix: compare the nanoseconds of times in the same
 second

---
 common/utctime.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index ea2fcf5..a68f533 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -28,7 +28,7 @@ bool UTCTime::operator>(const UTCTime& other) const
 }
 bool UTCTime::operator>=(const UTCTime& other) const
 {
-    return (sec >= other.sec) ? true
+    return (sec > other.sec) ? true
                               : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
 }
 bool UTCTime::operator<(const UTCTime& other) const
@@ -38,7 +38,7 @@ bool UTCTime::operator<(const UTCTime& other) const
 }
 bool UTCTime::operator<=(const UTCTime& other) const
 {
-    return (sec <= other.sec) ? true
+    return (sec < other.sec) ? true
                               : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
 }
 
-- 
2.43.0


From c3261218e1f5395ab59d1f2025b99396707bc37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 43/75] fix: keep the milliseconds of GPS, Galileo and GLONASS
 times of week

---
 common/utctime.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index a68f533..f2811c6 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -200,7 +200,7 @@ UTCTime UTCTime::fromGPS(int week, int tow_ms)
 {
     UTCTime out;
     out.sec = week * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
@@ -238,7 +238,7 @@ UTCTime UTCTime::fromGlonass(int week, int tow_ms)
 {
     UTCTime out;
     out.sec = int64_t(week * SEC_IN_WEEK) + tow_ms / 1000 + GLO_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
-- 
2.43.0


From 150ca5c9a8e2537e0282a01ea560c8082b5f58cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 44/75] fix: start the waypoint follower at the first waypoint

---
 sim/dynamics/car.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/dynamics/car.h b/sim/dynamics/car.h
index 6655936..b35788a 100644
--- a/sim/dynamics/car.h
+++ b/sim/dynamics/car.h
@@ -44,7 +44,7 @@ struct SimCar final : public Dynamics
             return options_.waypoints[current_waypoint_ % options_.waypoints.size()];
         }
         Options options_;
-        int current_waypoint_;
+        int current_waypoint_ = 0;
     };
 
     SimCar(const Options& options);
-- 
2.43.0


From a0d3bb3e6f96146dd55a003d0d97a0755e196527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 45/75] fix: let simulated IMU biases walk as configured

---
 sim/sensors/imu.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim/sensors/imu.cxx b/sim/sensors/imu.cxx
index 2364c3d..22328b1 100644
--- a/sim/sensors/imu.cxx
+++ b/sim/sensors/imu.cxx
@@ -22,8 +22,8 @@ bool ImuSim::sample(const UTCTime& t, const math::TwoJet<double>& x, Out<meas::I
     {
         prev_t_ = t;
 
-        accel_bias_ += randomNormal<Vec3>() * options_.accel_noise_stdev * dt;
-        gyro_bias_ += randomNormal<Vec3>() * options_.gyro_noise_stdev * dt;
+        accel_bias_ += randomNormal<Vec3>() * options_.accel_walk_stdev * dt;
+        gyro_bias_ += randomNormal<Vec3>() * options_.gyro_walk_stdev * dt;
 
         imu->accel = x.d2x.linear() + accel_bias_ +
                      randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rota(GRAVITY);
-- 
2.43.0


From f53d015fba3b279ee3cea2bbb1088c630f9ad603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 46/75] fix: date simulated GNSS observations

---
 sim/sensors/gnss.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index 48b5114..9f2177d 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -141,6 +141,7 @@ bool GnssSim::sample(const UTCTime& t,
             doppler += normal_(gen_) * options_.doppler_stdev_;
 
             obs->emplace_back();
+            obs->back().t = t;
             obs->back().pseudorange = pseudorange;
             obs->back().doppler = doppler;
             obs->back().carrier_phase = carrier_phase;
-- 
2.43.0


From 83a65a0d167094557d4ed557d196b833d392df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 47/75] fix: deliver each simulated ephemeris when its time has
 come

---
 sim/sensors/gnss.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index 9f2177d..0973254 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -157,7 +157,7 @@ bool GnssSim::sample(const UTCTime& t,
 
 bool GnssSim::sampleGpsEph(const UTCTime& t, Out<ephemeris::GPSEphemeris> eph)
 {
-    if (std::get<UTCTime>(gps_ephemerides_.front()) >= t)
+    if (!gps_ephemerides_.empty() && std::get<UTCTime>(gps_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GPSEphemeris>(gps_ephemerides_.front());
         gps_ephemerides_.erase(gps_ephemerides_.begin());
@@ -168,7 +168,7 @@ bool GnssSim::sampleGpsEph(const UTCTime& t, Out<ephemeris::GPSEphemeris> eph)
 }
 bool GnssSim::sampleGloEph(const UTCTime& t, Out<ephemeris::GlonassEphemeris> eph)
 {
-    if (std::get<UTCTime>(glo_ephemerides_.front()) >= t)
+    if (!glo_ephemerides_.empty() && std::get<UTCTime>(glo_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GlonassEphemeris>(glo_ephemerides_.front());
         glo_ephemerides_.erase(glo_ephemerides_.begin());
@@ -179,7 +179,7 @@ bool GnssSim::sampleGloEph(const UTCTime& t, Out<ephemeris::GlonassEphemeris> ep
 }
 bool GnssSim::sampleGalEph(const UTCTime& t, Out<ephemeris::GalileoEphemeris> eph)
 {
-    if (std::get<UTCTime>(gal_ephemerides_.front()) >= t)
+    if (!gal_ephemerides_.empty() && std::get<UTCTime>(gal_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GalileoEphemeris>(gal_ephemerides_.front());
         gal_ephemerides_.erase(gal_ephemerides_.begin());
-- 
2.43.0


From 99e4ca84f0744a051b1e3d1d710b27b065804ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 48/75] fix: compute the rate of the true anomaly to the last
 bit as before

---
 common/satellite/satellite_state.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 60f466d..bb915a0 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -41,10 +41,9 @@ Error eph2Sat(const UTCTime& t,
     const double sek = sin(ek);
     const double cek = cos(ek);
 
-    const double ekdot = mkdot / (1.0 - eph.ecc * cek);
-
     const double tak = atan2(sqrt(1.0 - eph.ecc * eph.ecc) * sek, cek - eph.ecc);
-    const double takdot = ekdot * sqrt(1.0 - eph.ecc * eph.ecc) / (1.0 - eph.ecc * cek);
+    const double takdot = mkdot * sqrt(1.0 - eph.ecc * eph.ecc) /
+                          ((1.0 - eph.ecc * cek) * (1.0 - eph.ecc * cek));
 
     const double phik = tak + eph.w;
     const double sphik2 = sin(2.0 * phik);
-- 
2.43.0


From 6bc8fe73af30c18c663556991d4fc5bc5c55a240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 49/75] fix: turn gravity into the body frame

---
 core/ekf/rtk_ekf_impl.cxx | 9 ++++++---
 sim/sensors/imu.cxx       | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 7ae2aa7..2dd7089 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -11,6 +11,7 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
     const Vec3 omega = u.gyro - x.gyro_bias;
     const Vec3 acc = u.accel - x.acc_bias;
     static const Vec3 gravity = Vec3::Unit(2) * 9.80665;
+    const Vec3 gravity_b = x.pose.rotp(gravity);
 
     if (dxdx)
     {
@@ -25,7 +26,7 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dPosdRot = -skew(x.vel);
         dPosdVel.setIdentity();
         dRotdBg = -Mat3::Identity();
-        dVeldRot = -skew(acc);
+        dVeldRot = skew(gravity_b);
 
         dxdx->dVel_dAccBias = -Mat3::Identity();
     }
@@ -40,7 +41,7 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
     ErrorState xdot = ErrorState::Zero();
     xdot.pose.head<3>() = omega;
     xdot.pose.tail<3>() = x.vel;
-    xdot.vel = x.pose.rota(gravity) + acc;
+    xdot.vel = gravity_b + acc;
     xdot.acc_bias.setZero();
     xdot.gyro_bias.setZero();
     xdot.gps_clk.setZero();
@@ -61,10 +62,12 @@ ErrorState errorStateDynamics(const ErrorState& dx,
                               const Input& u,
                               const Input& eta)
 {
+    static const Vec3 gravity = Vec3::Unit(2) * 9.80665;
+
     ErrorState out = ErrorState::Zero();
     out.pose.head<3>() = -(u.gyro - x.gyro_bias).cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
     out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>());
-    out.vel = (-dx.acc_bias + eta.accel) - (u.accel - x.acc_bias).cross(dx.pose.head<3>());
+    out.vel = (-dx.acc_bias + eta.accel) + x.pose.rotp(gravity).cross(dx.pose.head<3>());
     return out;
 }
 
diff --git a/sim/sensors/imu.cxx b/sim/sensors/imu.cxx
index 22328b1..69c38da 100644
--- a/sim/sensors/imu.cxx
+++ b/sim/sensors/imu.cxx
@@ -26,7 +26,7 @@ bool ImuSim::sample(const UTCTime& t, const math::TwoJet<double>& x, Out<meas::I
         gyro_bias_ += randomNormal<Vec3>() * options_.gyro_walk_stdev * dt;
 
         imu->accel = x.d2x.linear() + accel_bias_ +
-                     randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rota(GRAVITY);
+                     randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rotp(GRAVITY);
         imu->gyro = x.dx.angular() + gyro_bias_ + randomNormal<Vec3>() * options_.gyro_noise_stdev;
         imu->t = t;
         return true;
-- 
2.43.0


From 597e2ad26db21dbb595044222fd6685153f33055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 50/75] fix: account for the rotation of the body frame the
 velocity is in

---
 core/ekf/rtk_ekf.yaml     |  2 +-
 core/ekf/rtk_ekf_impl.cxx | 18 ++++++++++++++----
 sim/sensors/imu.cxx       |  5 +++--
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/core/ekf/rtk_ekf.yaml b/core/ekf/rtk_ekf.yaml
index 550cca3..bcd5a22 100644
--- a/core/ekf/rtk_ekf.yaml
+++ b/core/ekf/rtk_ekf.yaml
@@ -61,7 +61,7 @@ input:
 dynamics:
   #  pose, vel, acc_bias, gyro_bias, gps_clk, gal_clk, glo_clk, p_b2g, T_I2e, sd,
   pose: [[pose, vel, gyro_bias], [gyro]]
-  vel: [[pose, acc_bias], [accel]]
+  vel: [[pose, vel, acc_bias, gyro_bias], [accel, gyro]]
   acc_bias: [[], []]
   gyro_bias: [[], []]
   gps_clk: [[gps_clk], []]
diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 2dd7089..c661c0f 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -18,17 +18,21 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dxdx->setZero();
         auto dRotdRot = dxdx->dPose_dPose.block<3, 3>(0, 0);
         auto dPosdRot = dxdx->dPose_dPose.block<3, 3>(3, 0);
+        auto dPosdPos = dxdx->dPose_dPose.block<3, 3>(3, 3);
         auto dPosdVel = dxdx->dPose_dVel.block<3, 3>(3, 0);
         auto dRotdBg = dxdx->dPose_dGyroBias.block<3, 3>(0, 0);
         auto dVeldRot = dxdx->dVel_dPose.block<3, 3>(0, 0);
 
         dRotdRot = -skew(omega);
         dPosdRot = -skew(x.vel);
+        dPosdPos = -skew(omega);
         dPosdVel.setIdentity();
         dRotdBg = -Mat3::Identity();
         dVeldRot = skew(gravity_b);
 
+        dxdx->dVel_dVel = -skew(omega);
         dxdx->dVel_dAccBias = -Mat3::Identity();
+        dxdx->dVel_dGyroBias = -skew(x.vel);
     }
 
     if (dxdu)
@@ -36,12 +40,13 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dxdu->setZero();
         dxdu->dPose_dGyro.topRows<3>().setIdentity();
         dxdu->dVel_dAccel.setIdentity();
+        dxdu->dVel_dGyro = skew(x.vel);
     }
 
     ErrorState xdot = ErrorState::Zero();
     xdot.pose.head<3>() = omega;
     xdot.pose.tail<3>() = x.vel;
-    xdot.vel = gravity_b + acc;
+    xdot.vel = gravity_b + acc - omega.cross(x.vel);
     xdot.acc_bias.setZero();
     xdot.gyro_bias.setZero();
     xdot.gps_clk.setZero();
@@ -64,10 +69,15 @@ ErrorState errorStateDynamics(const ErrorState& dx,
 {
     static const Vec3 gravity = Vec3::Unit(2) * 9.80665;
 
+    const Vec3 omega = u.gyro - x.gyro_bias;
+    const Vec3 domega = eta.gyro - dx.gyro_bias;
+    const Vec3 dacc = eta.accel - dx.acc_bias;
+    const Vec3 dtheta = dx.pose.head<3>();
+
     ErrorState out = ErrorState::Zero();
-    out.pose.head<3>() = -(u.gyro - x.gyro_bias).cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
-    out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>());
-    out.vel = (-dx.acc_bias + eta.accel) + x.pose.rotp(gravity).cross(dx.pose.head<3>());
+    out.pose.head<3>() = -omega.cross(dtheta) + domega;
+    out.pose.tail<3>() = -omega.cross(dx.pose.tail<3>()) - x.vel.cross(dtheta) + dx.vel;
+    out.vel = x.pose.rotp(gravity).cross(dtheta) + dacc - omega.cross(dx.vel) + x.vel.cross(domega);
     return out;
 }
 
diff --git a/sim/sensors/imu.cxx b/sim/sensors/imu.cxx
index 69c38da..eb55f85 100644
--- a/sim/sensors/imu.cxx
+++ b/sim/sensors/imu.cxx
@@ -25,8 +25,9 @@ bool ImuSim::sample(const UTCTime& t, const math::TwoJet<double>& x, Out<meas::I
         accel_bias_ += randomNormal<Vec3>() * options_.accel_walk_stdev * dt;
         gyro_bias_ += randomNormal<Vec3>() * options_.gyro_walk_stdev * dt;
 
-        imu->accel = x.d2x.linear() + accel_bias_ +
-                     randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rotp(GRAVITY);
+        const Vec3 accel_b = x.d2x.linear() + x.dx.angular().cross(Vec3(x.dx.linear()));
+        imu->accel = accel_b + accel_bias_ + randomNormal<Vec3>() * options_.accel_noise_stdev -
+                     x.x.rotp(GRAVITY);
         imu->gyro = x.dx.angular() + gyro_bias_ + randomNormal<Vec3>() * options_.gyro_noise_stdev;
         imu->t = t;
         return true;
-- 
2.43.0


From 7d73242bba8439d57cac8dcf770ceca9bb027e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 51/75] fix: let the clock drift into the clock bias when
 predicting the covariance

---
 core/ekf/rtk_ekf_impl.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index c661c0f..9a46fe3 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -33,6 +33,10 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dxdx->dVel_dVel = -skew(omega);
         dxdx->dVel_dAccBias = -Mat3::Identity();
         dxdx->dVel_dGyroBias = -skew(x.vel);
+
+        dxdx->dGpsClk_dGpsClk(0, 1) = 1.0;
+        dxdx->dGalClk_dGalClk(0, 1) = 1.0;
+        dxdx->dGloClk_dGloClk(0, 1) = 1.0;
     }
 
     if (dxdu)
@@ -78,6 +82,9 @@ ErrorState errorStateDynamics(const ErrorState& dx,
     out.pose.head<3>() = -omega.cross(dtheta) + domega;
     out.pose.tail<3>() = -omega.cross(dx.pose.tail<3>()) - x.vel.cross(dtheta) + dx.vel;
     out.vel = x.pose.rotp(gravity).cross(dtheta) + dacc - omega.cross(dx.vel) + x.vel.cross(domega);
+    out.gps_clk << dx.gps_clk(1), 0;
+    out.gal_clk << dx.gal_clk(1), 0;
+    out.glo_clk << dx.glo_clk(1), 0;
     return out;
 }
 
-- 
2.43.0


From 81a02a1a6acd9b93a4ca2d013615c0bd470f89d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 52/75] fix: place the simulated antenna at the body origin
 unless told otherwise

---
 sim/sensors/gnss.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/sensors/gnss.h b/sim/sensors/gnss.h
index 05515e2..68ccee8 100644
--- a/sim/sensors/gnss.h
+++ b/sim/sensors/gnss.h
@@ -34,7 +34,7 @@ class GnssSim
         double clock_walk_stdev_ = 1e-9;
         double clock_init_stdev_ = 1e-10;
         math::DQuat<double> T_e2n;
-        Vec3 p_b2g;
+        Vec3 p_b2g = Vec3::Zero();
     };
 
     GnssSim(const Options& options, const UTCTime& t0);
-- 
2.43.0


From 3f97939ead5c136cb0169aa8f81b8f6306e42208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 53/75] fix: bound the searches for the time of transmission of
 a satellite signal, too

---
 models/prange_model.cxx                 | 7 ++++++-
 models/relative_carrier_phase_model.cxx | 7 ++++++-
 sim/sensors/gnss.cxx                    | 6 +++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/models/prange_model.cxx b/models/prange_model.cxx
index 9837e0c..04afc6f 100644
--- a/models/prange_model.cxx
+++ b/models/prange_model.cxx
@@ -9,6 +9,9 @@
 namespace mc {
 namespace models {
 
+// maximum number of iterations to find the time of transmission
+static constexpr int MAX_ITERATIONS = 10;
+
 using DQ = math::DQuat<double>;
 
 #define T transpose()
@@ -30,7 +33,9 @@ void PseudorangeModel::computeConstants(const Vec3& rec_pos_ecef)
 
     sat_.getState(obs_.t, make_out(sat_state_));
     double dt = std::numeric_limits<double>::max();
-    while (abs(dt) * sat_state_.vel.norm() > 1e-3)  // get millimeter-accurate
+    // get millimeter-accurate (where the satellite changes ephemerides in between, there may be no
+    // solution to converge to)
+    for (int i = 0; i < MAX_ITERATIONS && abs(dt) * sat_state_.vel.norm() > 1e-3; ++i)
     {
         // Compute how long it took for the signal to get here (including Sagnac Correction)
         Vec3 los_to_sat = sat_state_.pos - rec_pos_ecef;
diff --git a/models/relative_carrier_phase_model.cxx b/models/relative_carrier_phase_model.cxx
index 3b9c9df..2128735 100644
--- a/models/relative_carrier_phase_model.cxx
+++ b/models/relative_carrier_phase_model.cxx
@@ -7,6 +7,9 @@
 namespace mc {
 namespace models {
 
+// maximum number of iterations to find the time of transmission
+static constexpr int MAX_ITERATIONS = 10;
+
 using DQ = math::DQuat<double>;
 using Eigen::Map;
 #define T transpose()
@@ -50,7 +53,9 @@ void RelativeCarrierPhase::computeSatState(const meas::GnssObservation& obs,
 {
     sat.getState(obs.t, sat_state);
     double dt = std::numeric_limits<double>::max();
-    while (abs(dt) * sat_state->vel.norm() > 1e-3)  // get millimeter-accurate
+    // get millimeter-accurate (where the satellite changes ephemerides in between, there may be no
+    // solution to converge to)
+    for (int i = 0; i < MAX_ITERATIONS && abs(dt) * sat_state->vel.norm() > 1e-3; ++i)
     {
         // Compute how long it took for the signal to get here (including Sagnac Correction)
         const Vec3 los_to_sat = sat_state->pos - rec_pos_ecef;
diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index 0973254..8760497 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -208,6 +208,9 @@ void GnssSim::range(const UTCTime& t,
     double dt;
     Vec3 los_to_sat;
     double range;
+    // (where the satellite changes ephemerides in between, there may be no solution to converge to)
+    static constexpr int MAX_ITERATIONS = 10;
+    int iterations = 0;
     do
     {
         // Compute how long it took for the signal to get here (including Sagnac Correction)
@@ -218,7 +221,8 @@ void GnssSim::range(const UTCTime& t,
         double tau = range / C_LIGHT;
         dt = tau - (t - sat_state.t).toSec();
         sat->getState(sat_state.t - dt, make_out(sat_state));
-    } while (abs(dt) * sat_state.vel.norm() > 1e-3);  // get millimeter-accurate
+    } while (abs(dt) * sat_state.vel.norm() > 1e-3 &&
+             ++iterations < MAX_ITERATIONS);  // get millimeter-accurate
 
     satellite::AtmosphericCorrection atm;
     satellite::computeAtmCorrection(t, p_ecef, sat_state, make_out(atm));
-- 
2.43.0


From 077ad72a90d83f197f74ab9d95f3a01aed7845e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 54/75] fix: adjust preintegrated measurements by the change of
 the bias since integration

---
 models/imu_model.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index e94b661..ef3a9b2 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -165,7 +165,7 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
 
     Map<Vec9> residual(_res);
 
-    const ImuErrorState bias_adjustment = dStatedBias() * bias;  //(bias - bias_);
+    const ImuErrorState bias_adjustment = dStatedBias() * (bias - bias_);
     ImuState adjusted_state = state() + bias_adjustment;
 
     const double dt = delta_t();
-- 
2.43.0


From 53b98013884593eca91b1bd53a4534346e910536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 55/75] fix: let an inertial model be cut next to a sample

---
 models/imu_model.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index ef3a9b2..7ee3f5f 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -84,9 +84,9 @@ Error ImuModel::integrate(const meas::ImuSample& imu)
     check(isFinite(imu.gyro), "NaN detected in imu gyroscope data");
 
     double dt = (imu.t - tf()).toSec();
-    check(dt >= TIME_QUANTIZATION,
+    check(imu.t > tf().quantized(),
           "IMU Samples must be in order, and spaced more than {}s apart (dt = {})",
-          fmt(TIME_QUANTIZATION, dt));
+          fmt(QuantizedTime::resolution_half, dt));
 
     ImuErrorState dstate;
     Mat9 A;
-- 
2.43.0


From 64a93291c9404f185ba9615ce19db9229cd54ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 56/75] fix: date the gathered observations

---
 tools/gather_ephemeris.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/gather_ephemeris.cxx b/tools/gather_ephemeris.cxx
index d4bfcb6..c5dee44 100644
--- a/tools/gather_ephemeris.cxx
+++ b/tools/gather_ephemeris.cxx
@@ -136,6 +136,7 @@ struct ObsListener : public ublox::UbxListener
             const ublox::RXM_RAWX_t::RawxMeas& meas = data.meas[i];
 
             meas::GnssObservation o;
+            o.t = UTCTime::fromGPS(data.week, 0) + data.rcv_tow;
             o.gnss_id = meas.gnss_id;
             o.sat_num = meas.sv_id;
             o.freq = get_freq(meas.gnss_id, meas.sig_id, meas.freq_id);
-- 
2.43.0


From 7a51a8228af0c81ebc9e6857f319b387c9052172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 57/75] fix: GLONASS frequency slots are reported with an
 offset of 7

---
 tools/gather_ephemeris.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/gather_ephemeris.cxx b/tools/gather_ephemeris.cxx
index c5dee44..56fdd3f 100644
--- a/tools/gather_ephemeris.cxx
+++ b/tools/gather_ephemeris.cxx
@@ -139,7 +139,8 @@ struct ObsListener : public ublox::UbxListener
             o.t = UTCTime::fromGPS(data.week, 0) + data.rcv_tow;
             o.gnss_id = meas.gnss_id;
             o.sat_num = meas.sv_id;
-            o.freq = get_freq(meas.gnss_id, meas.sig_id, meas.freq_id);
+            // the receiver reports the GLONASS frequency slot plus 7
+            o.freq = get_freq(meas.gnss_id, meas.sig_id, meas.freq_id - 7);
             o.pseudorange = meas.pr_meas;
             o.doppler = meas.do_meas;
             o.carrier_phase = meas.cp_meas;
-- 
2.43.0


From 2d922e8b5f9e2bf57d3b3062fc2d53e8f46a412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 58/75] fix: convert the gathered Doppler shifts to meters per
 second

---
 tools/gather_ephemeris.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/gather_ephemeris.cxx b/tools/gather_ephemeris.cxx
index 56fdd3f..b5f51c7 100644
--- a/tools/gather_ephemeris.cxx
+++ b/tools/gather_ephemeris.cxx
@@ -142,7 +142,8 @@ struct ObsListener : public ublox::UbxListener
             // the receiver reports the GLONASS frequency slot plus 7
             o.freq = get_freq(meas.gnss_id, meas.sig_id, meas.freq_id - 7);
             o.pseudorange = meas.pr_meas;
-            o.doppler = meas.do_meas;
+            // from Hz, positive when approaching, to the rate of the pseudorange (m/s)
+            o.doppler = -meas.do_meas * C_LIGHT / o.freq;
             o.carrier_phase = meas.cp_meas;
             if (o.freq > 0)
             {
-- 
2.43.0


From a954911a8567d4ab8704e97fd3e60f414d0a6534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 59/75] fix: keep the diagonal blocks of the covariance
 symmetric in an update

---
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 8e8a4bf..a10b891 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -202,6 +202,25 @@ def commit_mat_inplace_modify(matrix, var, modify_type='-', symmetric=False):
     return out, var
 
 
+def symmetrize_diagonal(var):
+    """ Only the upper blocks are kept, but the blocks on the diagonal are kept completely.  Rounding
+        leaves them slightly asymmetric, and the update amplifies whatever asymmetry it finds. """
+    out = ["// the blocks on the diagonal stay symmetric"]
+    for i in range(var.rows):
+        block = var[i, i]
+        expr = re.sub(r"([A-Za-z][a-zA-Z_0-9]+)", r"{\1}", reduce(block).render())
+        impl = f"{expr} = (0.5 * ({expr} + {expr}.transpose())).eval();"
+        if block.is_variable():
+            sizes = {f"({s} > 0)" for s in (block.rows, block.cols) if isinstance(s, str)}
+            out.append(f"if ({' && '.join(sizes)}) {{{{")
+            out.append(f"    {impl}")
+            out.append("}}")
+        else:
+            out.append(impl)
+    out[-1] += "\n"
+    return out
+
+
 def commit_mat(matrix, var, symmetric=False, dense=False, const=True, already_checked_size=[]):
     def impl_expr(expr):
         return re.sub(r"([A-Za-z][a-zA-Z_0-9]+)", r"{\1}", reduce(expr).render())
@@ -420,6 +439,7 @@ def sparse_meas_update(cfg, key):
 
     # Covariance update
     Pout_impl, _ = commit_mat_inplace_modify(K * PHT.T, P, '-', symmetric=True)
+    Pout_impl += symmetrize_diagonal(P)
     tmp = "\n        ".join(Pout_impl)
     SPARSE_COVARIANCE_UPDATE = tmp.format(**symbol_varname)
 
-- 
2.43.0


From 314f2a194862c8a434639110703e8e334777364f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 60/75] fix: start a covariance from uncertainties without
 correlations

---
 core/ekf/ekf_gen/ekf_gen_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 4b95a34..8cf48bf 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -776,11 +776,12 @@ def covariance_dense(cfg):
 
 def covariance_from_process_cov(cfg):
     states = cfg["state_composition"]
-    out = []
+    # no correlations
+    out = ["setIdentity();"]
     for s in states:
         if s.variable:
             out.append(
-                f"{make_camel(s.name)}_{make_camel(s.name)}_buf_ = tile(cov.{make_camel(s.name)}.asDiagonal(), {s.bundle_size}, {s.bundle_size});"
+                f"{make_camel(s.name)}_{make_camel(s.name)}_buf_ = cov.{make_camel(s.name)}.replicate({s.bundle_size}, 1).asDiagonal();"
             )
         else:
             out.append(
-- 
2.43.0


From 8ab2819d2659c5855391c23ad115a5b088d89924 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 61/75] fix: start post-processing at the time of the initial
 state

---
 tools/post_process.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index ade125f..bb03987 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -101,6 +101,7 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
         x.T_I2e.real() = q_hdg * x.T_I2e.real();
     }
     cfg.get("p_b2g0", make_out(x.p_b2g), true);
+    x.t = t;
 
     x.gps_clk.setZero();
     x.gal_clk.setZero();
-- 
2.43.0


From 931b0016d1f05461ece423e173cafb22b05c4deb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 62/75] fix: read the uncertainty of the single differences,
 which is one number

---
 tools/post_process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index bb03987..cd72cab 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -31,7 +31,7 @@ ProcessCovariance getStateCovariance(const std::string& key, utils::Config& cfg)
     cfg.get(key + "/glo_clk", make_out(stdev.gloClk), true);
     cfg.get(key + "/p_b2g", make_out(stdev.pB2g), true);
     cfg.get(key + "/T_I2e", make_out(stdev.TI2e), true);
-    cfg.get(key + "/sd", make_out(stdev.sd), true);
+    cfg.get(key + "/sd", make_out(stdev.sd(0)), true);
 
     ProcessCovariance cov;
     cov.pose = stdev.pose.cwiseProduct(stdev.pose);
-- 
2.43.0


From e3a12834c5f0a7a86eefba7479e5aeeb2e0d61a7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 63/75] fix: name the uncertainty of the observations as the
 post-processing program does

---
 config/rtk_ekf_post_process.yaml | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/config/rtk_ekf_post_process.yaml b/config/rtk_ekf_post_process.yaml
index ea53883..2363b2c 100644
--- a/config/rtk_ekf_post_process.yaml
+++ b/config/rtk_ekf_post_process.yaml
@@ -23,9 +23,7 @@ P0_stdev:
 
 # Measurement Covariances (sqrt of diagonal)
 point_pos_stdev: [1, 1, 3, 0.1, 0.1, 0.3]
-gps_obs_stdev: [0.01, 0.01]
-gal_obs_stdev: [0.01, 0.01]
-glo_obs_stdev: [0.01, 0.01]
+obs_stdev: [0.01, 0.01]
 fix_and_hold_stdev: 0.001
 imu_stdev:
   gyro: [0.01, 0.01, 0.01]
-- 
2.43.0


From 3db25a84dc10c4c556968e37d52829db6150a9ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 64/75] fix: start post-processing at the configured place,
 heading the configured way

---
 tools/post_process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index cd72cab..d6ab474 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -98,7 +98,7 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
         math::Quatd q_hdg = math::Quatd::from_euler(0, 0, heading_rad);
 
         x.T_I2e = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(lla_rad)).inverse();
-        x.T_I2e.real() = q_hdg * x.T_I2e.real();
+        x.T_I2e = math::DQuat<double>(q_hdg.inverse(), Vec3::Zero()) * x.T_I2e;
     }
     cfg.get("p_b2g0", make_out(x.p_b2g), true);
     x.t = t;
-- 
2.43.0


From 2d7a2fcd564ca354787cd1e77092b9099fac15f0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 65/75] fix: log the estimate as it is described

---
 tools/post_process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index d6ab474..ed159ad 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -232,7 +232,7 @@ int main(int argc, char** argv)
         }
         log_writer.log(logging::ESTIMATE, ekf.t(), ekf.x().pose, ekf.x().vel, ekf.u().gyro,
                        ekf.u().accel, ekf.p_ecef(), ekf.x().gps_clk, ekf.x().gal_clk,
-                       ekf.x().glo_clk, ekf.cov());
+                       ekf.x().glo_clk);
 
         return Error::none();
     });
-- 
2.43.0


From 740f7803198aa6819d3485685c88b69198798fb4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 66/75] fix: post-process every observation, at the time it was
 made

---
 tools/post_process.cxx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index ed159ad..01ca2bd 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -251,21 +251,29 @@ int main(int argc, char** argv)
                            });
 
     std::vector<meas::GnssObservation> obs_bundle;
+    const auto addBundle = [&]() {
+        if (!obs_bundle.empty())
+        {
+            ekf.addMeasurement(obs_bundle.front().t, obs_bundle);
+            obs_bundle.clear();
+        }
+    };
     log_reader.setCallback(logging::LogKey::GNSS_OBS, [&](const UTCTime& t, int key, auto& reader) {
         meas::GnssObservation obs;
         if (!reader.get(obs))
         {
             return;
         }
-        if (obs_bundle.empty() || obs_bundle.front().t == obs.t)
+        if (!obs_bundle.empty() && obs_bundle.front().t != obs.t)
         {
-            obs_bundle.push_back(obs);
+            // the next bundle begins before a pause
+            addBundle();
         }
+        obs_bundle.push_back(obs);
 
         if ((reader.nextStamp() - t).toSec() > 0.01)
         {
-            ekf.addMeasurement(t, obs_bundle);
-            obs_bundle.clear();
+            addBundle();
         }
     });
 
-- 
2.43.0


From f074f6f3906c4797932516292fdefa3a7a3d2630 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:20:10 +0000
Subject: [PATCH 67/75] fix: start post-processing from a configured state at
 rest

---
 tools/post_process.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index 01ca2bd..baa6814 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -87,6 +87,7 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
     else
     {
         t = log.startTime();
+        u = getInput(cfg);
         cfg.get("translation0", make_out(translation), true);
         cfg.get("rotation0", make_out(q.arr_), true);
         cfg.get("vel0", make_out(x.vel), true);
-- 
2.43.0


From a4a99fb64dfa7587b5fdf706ce7db4c98b9708e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 68/75] fix: open the latest log in Python whatever else lies
 beside it

---
 common/logging/log_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/logging/log_reader.py b/common/logging/log_reader.py
index 5a6ba97..67a4efb 100644
--- a/common/logging/log_reader.py
+++ b/common/logging/log_reader.py
@@ -71,7 +71,10 @@ def get_log_files(file_path):
 def load(file_path, streams=None, normalize_time=True):
     # Load the most recent log if not supplied a direct id
     if not re.search(r'\d{8}_\d{6}\/?$', file_path):
-        file_path = os.path.join(file_path, sorted(os.listdir(file_path))[-1])
+        logs = [d for d in os.listdir(file_path) if re.fullmatch(r'\d{8}_\d{6}', d)]
+        if not logs:
+            raise RuntimeError(f"Unable to find a log in {file_path}")
+        file_path = os.path.join(file_path, max(logs))
 
     files = get_log_files(file_path)
 
-- 
2.43.0


From d1e33840d1c761ff972bec3c891ba7134f77de68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 69/75] fix: read matrices in Python by columns, as they are
 stored

---
 common/logging/log_reader.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/common/logging/log_reader.py b/common/logging/log_reader.py
index 67a4efb..c4d1ca0 100644
--- a/common/logging/log_reader.py
+++ b/common/logging/log_reader.py
@@ -37,6 +37,17 @@ def make_dtype(format):
     return dtype
 
 
+def order_matrices(data):
+    # matrices are stored by columns
+    for name in data.dtype.names:
+        shape = data.dtype[name].shape
+        if len(shape) == 2:
+            columns = data[name].reshape(len(data), shape[1], shape[0])
+            data[name] = columns.swapaxes(1, 2).copy()
+        elif data.dtype[name].names:
+            order_matrices(data[name])
+
+
 def load_header(hdr_path):
     with open(hdr_path) as header_file:
         data = yaml.load(header_file.read(), Loader=yaml.FullLoader)
@@ -87,6 +98,7 @@ def load(file_path, streams=None, normalize_time=True):
         print("loading {}".format(log_path))
         dtype = load_header(hdr_path)
         data = np.fromfile(log_path, dtype=dtype)
+        order_matrices(data)
 
         if normalize_time and 't' in data.dtype.fields:
             print("normalizing_time")
-- 
2.43.0


From ed03ad1d0dc762d14255cbb0896d32b6b0d2ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 70/75] fix: keep the names of the fields of a record in Python

---
 common/logging/log_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/logging/log_reader.py b/common/logging/log_reader.py
index c4d1ca0..574b5c7 100644
--- a/common/logging/log_reader.py
+++ b/common/logging/log_reader.py
@@ -102,7 +102,8 @@ def load(file_path, streams=None, normalize_time=True):
 
         if normalize_time and 't' in data.dtype.fields:
             print("normalizing_time")
-            data = numpy.lib.recfunctions.rename_fields(data, {"t": "stamp"})
+            # (only of the record, fields of its parts keep their names)
+            data.dtype.names = tuple("stamp" if n == "t" else n for n in data.dtype.names)
             data = numpy.lib.recfunctions.append_fields(
                 data,
                 't',
-- 
2.43.0


From 761fd9e3cb034c5037b7518af157f2f5cfb205b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 71/75] fix: read records in Python that have fields called
 type, rows or cols

---
 common/logging/log_reader.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/common/logging/log_reader.py b/common/logging/log_reader.py
index 574b5c7..6e2982c 100644
--- a/common/logging/log_reader.py
+++ b/common/logging/log_reader.py
@@ -21,11 +21,12 @@ DATATYPES = {
 
 
 def make_dtype(format):
-    if "cols" in format.keys():
-        return (DATATYPES[format["type"]], (format["rows"], format["cols"]))
-    elif "rows" in format.keys():
-        return (DATATYPES[format["type"]], format["rows"])
-    elif "type" in format.keys():
+    # (fields of a record may be called type, rows or cols)
+    if isinstance(format.get("type"), int):
+        if "cols" in format.keys():
+            return (DATATYPES[format["type"]], (format["rows"], format["cols"]))
+        elif "rows" in format.keys():
+            return (DATATYPES[format["type"]], format["rows"])
         return DATATYPES[format["type"]]
 
     if (len(format) == 1):
-- 
2.43.0


From c04291ef7e96088d72be1c03da9538a3ca0ea6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 72/75] fix: load logs without streams of their own in Python

---
 common/logging/log_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/logging/log_reader.py b/common/logging/log_reader.py
index 6e2982c..0942441 100644
--- a/common/logging/log_reader.py
+++ b/common/logging/log_reader.py
@@ -68,7 +68,7 @@ def get_log_files(file_path):
 
     files = {
         key: os.path.join(file_path, name)
-        for key, name in zip(manifest["keys"], manifest["key_names"])
+        for key, name in zip(manifest.get("keys", []), manifest.get("key_names", []))
     }
 
     # load amended topics
-- 
2.43.0


From 9741d36872b8186d4d98eb825e08dae5ca4c4bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 73/75] fix: read logs without streams of their own

---
 common/logging/log_reader.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index c49e3de..f78df00 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -125,7 +125,8 @@ void LogReader::openLog(const fs::path& directory)
     start_time_ = std::min(start_time_, log_start_time);
     end_time_ = std::max(end_time_, log_end_time);
 
-    for (const auto key : node["keys"].as<std::vector<int>>())
+    // (a log without streams has no list of keys)
+    for (const auto key : node["keys"].as<std::vector<int>>(std::vector<int>()))
     {
         const std::string stream_data_file = directory / fs::path(logKeyName(key) + ".log");
         streams_.emplace(key, stream_data_file);
-- 
2.43.0


From 53fa2f413affd9560785fbf51d7610c2915d910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:58 +0000
Subject: [PATCH 74/75] fix: open the latest log whatever files lie beside it

---
 common/logging/log_reader.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index f78df00..8c62726 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -41,7 +41,7 @@ fs::path getLatestLog(const fs::path& path)
     for (const auto& entry : fs::directory_iterator(path))
     {
         const auto split = utils::split_string(entry.path().string(), '/');
-        if (isLogId(entry.path().stem()))
+        if (isLogId(entry.path().filename()))
         {
             options.push_back(entry.path());
         }
-- 
2.43.0


From a32e31104cf66ac68fac54aa56c86d564efdab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:58 +0000
Subject: [PATCH 75/75] fix: open a log whose path ends in a slash

---
 common/logging/log_reader.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index 8c62726..a925fd8 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -32,6 +32,10 @@ bool isLogId(const std::string& maybe_log_id)
 
 fs::path getLatestLog(const fs::path& path)
 {
+    if (path.filename() == "." && isLogId(path.parent_path().stem()))
+    {
+        return path.parent_path();
+    }
     if (isLogId(path.stem()))
     {
         return path;
-- 
2.43.0

