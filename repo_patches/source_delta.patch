From 4b0688a5427a37b21534cc72272d98844173a0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:56 +0000
Subject: [PATCH 01/62] fix: Packet::receive into a packet used before kept old
 contents and position

---
 include/frnetlib/Packet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 67d1db0..2dc6df8 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -772,8 +772,8 @@ namespace fr
                 return fr::Socket::Status::MaxPacketSizeExceeded;
 
             //Now we've got the length, read the rest of the data in
-            if(packet_length + PACKET_HEADER_LENGTH > buffer.size())
-                buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            buffer_read_index = PACKET_HEADER_LENGTH;
 
             do
             {
-- 
2.43.0


From 37cc99ce6f4556a166fb5a06aed62d0936720658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 02/62] fix: disconnect a peer that exceeds the maximum receive
 size, as documented

---
 include/frnetlib/Packet.h | 3 +++
 src/WebFrame.cpp          | 1 +
 2 files changed, 4 insertions(+)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 2dc6df8..8f0005a 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -769,7 +769,10 @@ namespace fr
 
             //Check that packet_length doesn't exceed the limit, if any
             if(socket->get_max_receive_size() && packet_length > socket->get_max_receive_size())
+            {
+                socket->disconnect();
                 return fr::Socket::Status::MaxPacketSizeExceeded;
+            }
 
             //Now we've got the length, read the rest of the data in
             buffer.resize(packet_length + PACKET_HEADER_LENGTH);
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 7abe6c8..13e4221 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -143,6 +143,7 @@ namespace fr
         //Verify that payload length isn't too large
         if(socket->get_max_receive_size() && payload_length > socket->get_max_receive_size())
         {
+            socket->disconnect();
             return Socket::Status::MaxPacketSizeExceeded;
         }
 
-- 
2.43.0


From 36d0b61e3b38e0fb40997f815b7e710750d0d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 03/62] fix: extracting a map from a packet merged into the
 destination's old contents

---
 include/frnetlib/Packet.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 8f0005a..f907a1f 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -173,6 +173,7 @@ namespace fr
 
             //First extract the length
             *this >> length;
+            m.clear();
 
             //Now take each of the elements out of the packet
             for(uint32_t a = 0; a < length; a++)
@@ -213,6 +214,7 @@ namespace fr
 
             //First extract the length
             *this >> length;
+            m.clear();
 
             //Now take each of the elements out of the packet
             for(uint32_t a = 0; a < length; a++)
-- 
2.43.0


From 618a2236a514014d009094fbb8a845a280379157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 04/62] fix: Packet::assert_bytes_remaining overflowed for huge
 sizes

---
 include/frnetlib/Packet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index f907a1f..cc67799 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -697,7 +697,7 @@ namespace fr
          */
         inline void assert_bytes_remaining(size_t required_space) const
         {
-            if(buffer_read_index + required_space > buffer.size())
+            if(buffer_read_index > buffer.size() || required_space > buffer.size() - buffer_read_index)
             {
                 throw std::out_of_range("Not enough bytes remaining in packet to extract requested data");
             }
-- 
2.43.0


From 18dc16afde39b535a035a09114c974f96d815700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 05/62] fix: Packet::set_cursor and seek_cursor overflowed for
 extreme positions

---
 include/frnetlib/Packet.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index cc67799..a235759 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -645,8 +645,7 @@ namespace fr
          */
         inline void set_cursor(size_t pos = 0)
         {
-            buffer_read_index = PACKET_HEADER_LENGTH + pos;
-            if(buffer_read_index > buffer.size()) buffer_read_index = buffer.size();
+            buffer_read_index = pos < size() ? PACKET_HEADER_LENGTH + pos : PACKET_HEADER_LENGTH + size();
         }
 
         /*!
@@ -668,12 +667,17 @@ namespace fr
          */
         inline void seek_cursor(ssize_t pos)
         {
-            ssize_t new_offset = buffer_read_index + pos;
-            if(new_offset < (ssize_t)PACKET_HEADER_LENGTH)
-                new_offset = PACKET_HEADER_LENGTH;
-            if(new_offset > (ssize_t)buffer.size())
-                new_offset = buffer.size();
-            buffer_read_index = static_cast<size_t>(new_offset);
+            const size_t cursor = get_cursor();
+            if(pos < 0)
+            {
+                const size_t distance = 0 - static_cast<size_t>(pos);
+                set_cursor(distance < cursor ? cursor - distance : 0);
+            }
+            else
+            {
+                const size_t distance = static_cast<size_t>(pos);
+                set_cursor(distance < size() - cursor ? cursor + distance : size());
+            }
         }
 
         /*!
-- 
2.43.0


From 23a8d751c0f97e0f8edced413e20558483db94be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 06/62] fix: extracting a bool from a packet copied arbitrary
 bytes into it

---
 include/frnetlib/Packet.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index a235759..82f98a2 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -264,10 +264,9 @@ namespace fr
          */
         inline Packet &operator>>(bool &var)
         {
-            assert_bytes_remaining(sizeof(var));
-
-            memcpy(&var, &buffer[buffer_read_index], sizeof(var));
-            buffer_read_index += sizeof(var);
+            uint8_t byte;
+            *this >> byte;
+            var = byte != 0;
             return *this;
         }
 
-- 
2.43.0


From c2bd4bd74d9a81de2ddd453d50dd993d3cda2137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 07/62] fix: extracting a vector allocated the length a peer
 claimed before checking it

---
 include/frnetlib/Packet.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 82f98a2..f1383eb 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -135,12 +135,15 @@ namespace fr
 
             //First extract the length
             *this >> length;
-            vec.resize(length);
+            vec.clear();
 
-            //Now take each of the elements out of the packet
-            for(auto &&iter : vec)
+            //Now take each of the elements out of the packet. The length is from the
+            //peer, so don't allocate for more elements than the packet holds.
+            for(uint32_t a = 0; a < length; a++)
             {
-                *this >> iter;
+                vec.emplace_back();
+                auto &&element = vec.back();
+                *this >> element;
             }
             return *this;
         }
-- 
2.43.0


From 0fe743449f5c043529b4b867f936e880e8940184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 08/62] fix: request line was split at the first 'HTTP', even
 inside the URI

---
 src/HttpRequest.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 696df9c..d3d4726 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -200,8 +200,8 @@ namespace fr
     void HttpRequest::parse_header_uri(const std::string &str)
     {
         auto uri_begin = str.find('/');
-        auto uri_end = str.find("HTTP");
-        if(uri_begin == std::string::npos || uri_end == std::string::npos)
+        auto uri_end = str.rfind("HTTP"); //The version comes last, the URI itself may contain 'HTTP'
+        if(uri_begin == std::string::npos || uri_end == std::string::npos || uri_begin >= uri_end)
         {
             throw std::invalid_argument("No URI found in: " + str);
         }
@@ -209,7 +209,7 @@ namespace fr
 
         //Parse GET variables
         auto get_begin = str.find('?');
-        if(get_begin != std::string::npos)
+        if(get_begin < uri_end)
         {
             auto get_vars = parse_argument_list(str.substr(get_begin, uri_end - get_begin));
             for(auto &c : get_vars)
-- 
2.43.0


From 36ab071b549c1742442aeeaebdbac84082d61455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 09/62] fix: an argument without a value was merged with the
 one following it

---
 src/Http.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Http.cpp b/src/Http.cpp
index be924c9..f86f6e0 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -209,6 +209,12 @@ namespace fr
             {
                 unsigned long and_pos;
                 and_pos = str.find('&', read_index);
+                if(and_pos < equal_pos)
+                {
+                    //This argument has no value, skip it
+                    read_index = and_pos + 1;
+                    continue;
+                }
                 if(and_pos >= str.size())
                 {
                     size_t str_size = str.size();
-- 
2.43.0


From e177b5754101b44469aa66b6a893a93e487806c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 10/62] fix: HTTP header end was looked for in the body

---
 src/HttpRequest.cpp  | 5 +++--
 src/HttpResponse.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index d3d4726..8c49494 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -28,9 +28,10 @@ namespace fr
             //Check to see if this request data contains the end of the header
             uint16_t header_end_size = 4;
             auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
+            auto lf_header_end = body.find("\n\n");
+            if(lf_header_end < header_end)
             {
-                header_end = body.find("\n\n");
+                header_end = lf_header_end;
                 header_end_size = 2;
             }
             header_ended = header_end != std::string::npos;
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index cda31b6..8e9aa55 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -21,9 +21,10 @@ namespace fr
             //Check to see if this request data contains the end of the header
             uint16_t header_end_size = 4;
             auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
+            auto lf_header_end = body.find("\n\n");
+            if(lf_header_end < header_end)
             {
-                header_end = body.find("\n\n");
+                header_end = lf_header_end;
                 header_end_size = 2;
             }
             header_ended = header_end != std::string::npos;
-- 
2.43.0


From 62619be7c0e46140e8ccdb742f19c530b05a5633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 11/62] fix: a partially received HTTP header of maximum length
 was refused

---
 src/HttpRequest.cpp  | 3 ++-
 src/HttpResponse.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 8c49494..9337abe 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -37,7 +37,8 @@ namespace fr
             header_ended = header_end != std::string::npos;
 
             //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || //+3 for a partially received header end
+               (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 8e9aa55..b94f398 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -30,7 +30,8 @@ namespace fr
             header_ended = header_end != std::string::npos;
 
             //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || //+3 for a partially received header end
+               (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
-- 
2.43.0


From e21afd57f39212ce8f0719d1747e050d4c9e55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 12/62] fix: headers with an empty value were dropped if lines
 end with just a newline

---
 src/Http.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index f86f6e0..7bb5365 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -246,7 +246,7 @@ namespace fr
         unsigned long data_begin;
         data_begin = str.find_first_not_of(' ', colon_pos + 1);
         if(data_begin == std::string::npos)
-            return;
+            data_begin = str.size();
 
         size_t data_len = 0;
         for(size_t a = data_begin; a < str.size(); a++)
-- 
2.43.0


From 13b18a4580deca5d87673ddaba6f6598434dd946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 13/62] fix: header values were cut off at tabs and non-ASCII
 characters

---
 src/Http.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index 7bb5365..96917ff 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -251,7 +251,9 @@ namespace fr
         size_t data_len = 0;
         for(size_t a = data_begin; a < str.size(); a++)
         {
-            if(str[a] >= 32 && str[a] <= 126)
+            //Visible characters, spaces, tabs and anything outside of the ASCII range
+            auto c = static_cast<unsigned char>(str[a]);
+            if((c >= 32 && c != 127) || c == '\t')
                 data_len++;
             else
                 break;
-- 
2.43.0


From 001b059ec2ed5171b7b70fcfa1e79d4fbd4b725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 14/62] fix: HTTP request body included data beyond its content
 length

---
 src/HttpRequest.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 9337abe..66e1cd8 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -55,6 +55,10 @@ namespace fr
             body.erase(0, header_end + header_end_size);
         }
 
+        //Cut off any data which exceeds the content length, it's not part of this request
+        if(header_exists("content-length") && body.size() > content_length)
+            body.resize(content_length);
+
         //Ensure that body doesn't exceed maximum length
         if(body.size() > MAX_HTTP_BODY_SIZE)
         {
-- 
2.43.0


From 7f0d85f7a3f989857f7ce7ccd65a20be6f13cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 15/62] fix: data following a HTTP response with a content
 length of 0 became its body

---
 src/HttpResponse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index b94f398..172d834 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -82,7 +82,7 @@ namespace fr
         }
 
         //Cut off any data if it exceeds content length, provided that a content length is specified
-        if(content_length > 0 && body.size() > content_length)
+        if(header_exists("content-length") && body.size() > content_length)
             body.resize(content_length);
         else if(body.size() < content_length)
             return fr::Socket::Status::NotEnoughData;
-- 
2.43.0


From a0f3f612cc1d05cbfdf05144ae3c6e3feb58645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 16/62] fix: malformed chunk lengths, trailers and surplus data
 broke chunked responses

---
 include/frnetlib/HttpResponse.h |  1 +
 src/HttpResponse.cpp            | 79 ++++++++++++++++++++++++---------
 2 files changed, 58 insertions(+), 22 deletions(-)

diff --git a/include/frnetlib/HttpResponse.h b/include/frnetlib/HttpResponse.h
index f91c802..aa2ab15 100644
--- a/include/frnetlib/HttpResponse.h
+++ b/include/frnetlib/HttpResponse.h
@@ -51,6 +51,7 @@ namespace fr
         bool header_ended{false};
         size_t content_length{0};
         size_t chunk_offset{0};
+        bool last_chunk{false};
     };
 }
 
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 172d834..2c75f75 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -48,46 +48,81 @@ namespace fr
             body.erase(0, header_end + header_end_size);
         }
 
-        //Ensure that body doesn't exceed maximum length
-        if(body.size() > MAX_HTTP_BODY_SIZE)
-            return fr::Socket::Status::HttpBodyTooBig;
-
         //Check if chunked encoding
         if(transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
         {
-            //It's chunked, find the length of the chunk in hex!
-            unsigned int chunk_len = 1;
-            while(chunk_len > 0 && chunk_offset < body.size())
+            while(true)
             {
-                auto length_end = body.find("\r\n", chunk_offset);
-                if(length_end == std::string::npos)
+                auto line_end = body.find("\r\n", chunk_offset);
+                bool got_line = line_end != std::string::npos;
+
+                //Chunk lengths and trailers are subject to the same limit as the header
+                size_t line_len = (got_line ? line_end : body.size()) - chunk_offset;
+                if(line_len > MAX_HTTP_HEADER_SIZE + (got_line ? 0 : 1)) //+1 for a partially received line end
+                    return fr::Socket::Status::HttpHeaderTooBig;
+                if(!got_line)
                     return fr::Socket::Status::NotEnoughData;
-                std::string hex_length = body.substr(chunk_offset, length_end - chunk_offset);
-                chunk_len = std::stoul(hex_length, nullptr, 16);
+
+                //After the last chunk there may be trailers, which are ignored, and then an empty line.
+                //Anything following it isn't part of this response.
+                if(last_chunk)
+                {
+                    if(line_end == chunk_offset)
+                    {
+                        body.resize(chunk_offset);
+                        return fr::Socket::Status::Success;
+                    }
+                    body.erase(chunk_offset, line_end + 2 - chunk_offset);
+                    continue;
+                }
+
+                //It's chunked, find the length of the chunk in hex!
+                if(!isxdigit(static_cast<unsigned char>(body[chunk_offset])))
+                    return fr::Socket::Status::ParseError;
+                size_t chunk_len;
+                try
+                {
+                    chunk_len = std::stoul(body.substr(chunk_offset, line_end - chunk_offset), nullptr, 16);
+                }
+                catch(const std::out_of_range &)
+                {
+                    return fr::Socket::Status::HttpBodyTooBig;
+                }
+
+                //Ensure that body doesn't exceed maximum length
+                if(chunk_offset > MAX_HTTP_BODY_SIZE || chunk_len > MAX_HTTP_BODY_SIZE - chunk_offset)
+                    return fr::Socket::Status::HttpBodyTooBig;
+
+                if(chunk_len == 0)
+                {
+                    body.erase(chunk_offset, line_end + 2 - chunk_offset);
+                    last_chunk = true;
+                    continue;
+                }
 
                 //If the current chunk hasn't fully been received yet then ask for more data
-                if(body.size() - length_end < chunk_len + 4) //+4 because of the \r\n after the hex value and the chunk end
+                auto chunk_begin = line_end + 2;
+                if(body.size() - chunk_begin < chunk_len + 2) //+2 because of the \r\n at the chunk end
                     return fr::Socket::Status::NotEnoughData;
+                if(body.compare(chunk_begin + chunk_len, 2, "\r\n") != 0)
+                    return fr::Socket::Status::ParseError;
 
                 //Now we have the full chunk, erase the padding \r\n
-                body.erase(chunk_offset + hex_length.size() + chunk_len + 2, 2); //delete \r\n after chunk
-                body.erase(chunk_offset, hex_length.size() + 2); //delete both hex length and following \r\n
+                body.erase(chunk_begin + chunk_len, 2); //delete \r\n after chunk
+                body.erase(chunk_offset, chunk_begin - chunk_offset); //delete both hex length and following \r\n
                 chunk_offset += chunk_len;
             }
-
-            //If this chunk is 0, we have everything!
-            if(chunk_len == 0)
-                return fr::Socket::Status::Success;
-            return fr::Socket::Status::NotEnoughData;
         }
 
         //Cut off any data if it exceeds content length, provided that a content length is specified
         if(header_exists("content-length") && body.size() > content_length)
             body.resize(content_length);
-        else if(body.size() < content_length)
-            return fr::Socket::Status::NotEnoughData;
-        return fr::Socket::Status::Success;
 
+        //Ensure that body doesn't exceed maximum length
+        if(body.size() > MAX_HTTP_BODY_SIZE)
+            return fr::Socket::Status::HttpBodyTooBig;
+
+        return body.size() < content_length ? fr::Socket::Status::NotEnoughData : fr::Socket::Status::Success;
     }
 
     std::string HttpResponse::construct(const std::string &host) const
-- 
2.43.0


From 13542576090da34bbfd2f48d6a9f91b5f26e79af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 17/62] fix: HTTP responses which never have a body waited for
 one or took the following data as it

---
 src/HttpResponse.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 2c75f75..9e870ea 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -48,6 +48,15 @@ namespace fr
             body.erase(0, header_end + header_end_size);
         }
 
+        //Some responses never have a body, whatever their headers say. What follows a protocol
+        //switch belongs to the new protocol, so it's left for the caller in that case.
+        if((status >= RequestStatus::Continue && status < RequestStatus::Ok) || status == RequestStatus::NoContent || status == RequestStatus::NotModified)
+        {
+            if(status != RequestStatus::SwitchingProtocols)
+                body.clear();
+            return fr::Socket::Status::Success;
+        }
+
         //Check if chunked encoding
         if(transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
         {
-- 
2.43.0


From d87b9eefd958c8454606b77bd760f5b628f7d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 18/62] fix: strings which aren't part of any HTTP request type
 were converted to Partial

---
 include/frnetlib/Http.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/frnetlib/Http.h b/include/frnetlib/Http.h
index a25c294..7bf0566 100644
--- a/include/frnetlib/Http.h
+++ b/include/frnetlib/Http.h
@@ -341,10 +341,8 @@ namespace fr
                 int cmp_ret = str.compare(0, type_string.size(), type_string);
                 if(cmp_ret == 0)
                     return static_cast<RequestType>(a);
-                if(str.size() < type_string.size() && cmp_ret < 0)
+                if(str.size() < type_string.size() && type_string.compare(0, str.size(), str) == 0)
                     type = Http::RequestType::Partial;
-                if(type != Http::RequestType::Partial && str.size() < type_string.size() && cmp_ret > 0)
-                    type = Http::RequestType::Unknown;
             }
 
             return type;
-- 
2.43.0


From 10a63ff3bba3afe81ee8a331125aa3148d210e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 19/62] fix: last POST argument was followed by an ampersand in
 a constructed request

---
 src/HttpRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 66e1cd8..ca60080 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -140,7 +140,7 @@ namespace fr
         for(auto iter = post_data.begin(); iter != post_data.end();)
         {
             post_string += iter->first + "=" + iter->second;
-            if(++iter != get_data.end())
+            if(++iter != post_data.end())
                 post_string += "&";
         }
         if(!post_string.empty())
-- 
2.43.0


From f0dee5a04fa6dac2e838f070de97575334b9891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 20/62] fix: Content-Length was missing with POST arguments and
 duplicated if set by the user

---
 src/HttpRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index ca60080..dc0a06d 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -153,7 +153,7 @@ namespace fr
             request += "Connection: keep-alive\r\n";
         if(header_data.find("host") == header_data.end())
             request += "Host: " + host + "\r\n";
-        if(!body.empty())
+        if(header_data.find("content-length") == header_data.end() && (!body.empty() || !post_string.empty()))
             request += "Content-Length: " + std::to_string(body.size() + post_string.size()) + "\r\n";
 
         //Add in space
-- 
2.43.0


From 3dac1e1650e50419990d4a22c4698c620d9d63fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 21/62] fix: responses without a body were only delimited by
 closing the connection

---
 src/HttpResponse.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 9e870ea..a892990 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -153,7 +153,10 @@ namespace fr
             response += "connection: keep-alive\r\n";
         if(header_data.find("content-type") == header_data.end())
             response += "content-type: text/html\r\n";
-        if(header_data.find("content-length") == header_data.end() && !body.empty())
+
+        //Without a length the client would have to wait for a disconnect, unless the status implies that there's no body
+        bool has_body = status >= RequestStatus::Ok && status != RequestStatus::NoContent && status != RequestStatus::NotModified;
+        if(header_data.find("content-length") == header_data.end() && (has_body || !body.empty()))
             response += "content-length: " + std::to_string(body.size()) + "\r\n";
 
         //Add in space
-- 
2.43.0


From 840d4b01ed3698be9d81acdf26e70cf36c398406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 22/62] fix: WebSocket frames of 65535 bytes were not sent in
 the shortest length form

---
 src/WebFrame.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 13e4221..dfc82ae 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -37,14 +37,14 @@ namespace fr
         if(payload.size() <= 125)
             first_2bytes |= payload.size();
         else
-            first_2bytes |= (payload.size() < std::numeric_limits<uint16_t>::max()) ? 126 : 127;
+            first_2bytes |= (payload.size() <= std::numeric_limits<uint16_t>::max()) ? 126 : 127;
         first_2bytes = htons(first_2bytes);
         buffer.append((char*)&first_2bytes, sizeof(first_2bytes));
 
         //Set additional payload bits if large enough
         if(payload.size() > 125)
         {
-            if(payload.size() < std::numeric_limits<uint16_t>::max()) //16bit length
+            if(payload.size() <= std::numeric_limits<uint16_t>::max()) //16bit length
             {
                 auto len = htons(static_cast<uint16_t>(payload.size()));
                 buffer.append((char*)&len, sizeof(len));
-- 
2.43.0


From 6478a8e961d64c255c37e8cef3dfcb5a48894128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 23/62] fix: sending a client WebSocket frame masked the
 payload of the frame object itself

---
 include/frnetlib/WebFrame.h | 2 +-
 src/WebFrame.cpp            | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/WebFrame.h b/include/frnetlib/WebFrame.h
index 5137b98..e4f2ca8 100644
--- a/include/frnetlib/WebFrame.h
+++ b/include/frnetlib/WebFrame.h
@@ -126,7 +126,7 @@ namespace fr
         virtual bool is_client() const = 0;
 
     private:
-        mutable std::string payload;
+        std::string payload;
         Opcode opcode;
         uint8_t final;
         static uint32_t current_mask_key;
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index dfc82ae..e819eb0 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -68,14 +68,17 @@ namespace fr
             mask_union.mask_key = ++current_mask_key;
             buffer.append((char*)&mask_union.mask_key, sizeof(mask_union.mask_key));
 
-            //Encode the payload using the mask key
+            //Encode the payload using the mask key, leaving the frame itself as it is
             for(size_t a = 0; a < payload.size(); ++a)
             {
-                payload[a] = payload[a] ^ mask_union.str_mask_key[a % 4];
+                buffer += static_cast<char>(payload[a] ^ mask_union.str_mask_key[a % 4]);
             }
         }
+        else
+        {
+            buffer.append(payload);
+        }
 
-        buffer.append(payload);
         size_t sent = 0;
         fr::Socket::Status state;
         do
-- 
2.43.0


From 6d6ea3225a818b405f340db660c6fdd58be9f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 24/62] fix: the WebSocket mask key counter was modified by
 several threads at once

---
 include/frnetlib/WebFrame.h | 3 ++-
 src/WebFrame.cpp            | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebFrame.h b/include/frnetlib/WebFrame.h
index e4f2ca8..a68bd65 100644
--- a/include/frnetlib/WebFrame.h
+++ b/include/frnetlib/WebFrame.h
@@ -6,6 +6,7 @@
 #define FRNETLIB_WEBFRAME_H
 
 
+#include <atomic>
 #include <ctime>
 #include "Sendable.h"
 
@@ -129,7 +130,7 @@ namespace fr
         std::string payload;
         Opcode opcode;
         uint8_t final;
-        static uint32_t current_mask_key;
+        static std::atomic<uint32_t> current_mask_key;
     };
 
     class ClientWebFrame : public fr::WebFrame {
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index e819eb0..8df4465 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -7,7 +7,7 @@
 
 namespace fr
 {
-    uint32_t WebFrame::current_mask_key = static_cast<uint32_t>(std::time(nullptr));
+    std::atomic<uint32_t> WebFrame::current_mask_key{static_cast<uint32_t>(std::time(nullptr))};
 
     WebFrame::WebFrame(WebFrame::Opcode type)
     : opcode(type),
-- 
2.43.0


From 9fc0d0062f46b722c2e2861a6e3333842402724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 25/62] fix: a hostile WebSocket payload length made receive
 throw

---
 src/WebFrame.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 8df4465..54b87d6 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -4,6 +4,9 @@
 
 #include "frnetlib/WebFrame.h"
 #include "frnetlib/WebSocket.h"
+#include <algorithm>
+#include <limits>
+#define PAYLOAD_CHUNK_SIZE (1024 * 1024)
 
 namespace fr
 {
@@ -169,15 +172,21 @@ namespace fr
         }
 
         //Read payload
-        payload.resize(payload_length, '\0');
-        do
+        //The length is only a claim, so don't allocate all of it before the data has arrived
+        while(payload.size() < payload_length)
         {
-            status = socket->receive_all(&payload[0], payload_length);
-        } while(status == fr::Socket::Status::WouldBlock);
-        if(status == fr::Socket::Status::Timeout)
-            status = fr::Socket::Status::Disconnected;
-        if(status != fr::Socket::Status::Success)
-            return status;
+            size_t offset = payload.size();
+            size_t chunk = static_cast<size_t>(std::min<uint64_t>(payload_length - offset, PAYLOAD_CHUNK_SIZE));
+            payload.resize(offset + chunk, '\0');
+            do
+            {
+                status = socket->receive_all(&payload[offset], chunk);
+            } while(status == fr::Socket::Status::WouldBlock);
+            if(status == fr::Socket::Status::Timeout)
+                status = fr::Socket::Status::Disconnected;
+            if(status != fr::Socket::Status::Success)
+                return status;
+        }
 
         //Decode the payload if the mask bit is set
         if(mask)
-- 
2.43.0


From fc2a1cfc90d3ca76ee74dc185948831a06482a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 26/62] fix: TcpSocket::connect leaked descriptors and left a
 failed socket connected

---
 src/TcpSocket.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index f37abda..eb42303 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -111,6 +111,9 @@ namespace fr
 
     Socket::Status TcpSocket::connect(const std::string &address, const std::string &port, std::chrono::seconds timeout)
     {
+        //Drop the previous connection, if there is one
+        TcpSocket::close_socket();
+
         //Setup required structures
         int ret = 0;
         addrinfo *info;
@@ -132,7 +135,7 @@ namespace fr
 
         //Try to connect to results returned by getaddrinfo until we succeed/run out of things
         addrinfo *c;
-        for(c = info; c != nullptr; c = c->ai_next)
+        for(c = info; c != nullptr; TcpSocket::close_socket(), c = c->ai_next)
         {
             //Get the socket for this entry
             socket_descriptor = ::socket(c->ai_family, c->ai_socktype, c->ai_protocol);
@@ -187,7 +190,10 @@ namespace fr
 
         //Turn back to blocking mode
         if(!set_unix_socket_blocking(socket_descriptor, false, true))
+        {
+            TcpSocket::close_socket();
             return Socket::Status::Error;
+        }
 
         //Update state now we've got a valid socket descriptor
         set_remote_address(address + ":" + port);
-- 
2.43.0


From 5ad3e4091308e55fd2625e864554c94a495f6cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 27/62] fix: a re-used TcpSocket reported the blocking mode of
 its previous connection

---
 include/frnetlib/NetworkEncoding.h | 2 +-
 src/TcpSocket.cpp                  | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/NetworkEncoding.h b/include/frnetlib/NetworkEncoding.h
index 23ece3f..9071444 100644
--- a/include/frnetlib/NetworkEncoding.h
+++ b/include/frnetlib/NetworkEncoding.h
@@ -116,7 +116,7 @@ inline bool set_unix_socket_blocking(int32_t socket_descriptor, bool is_blocking
     int flags = fcntl(socket_descriptor, F_GETFL, 0);
     if(flags < 0)
         return false;
-    flags = fcntl(socket_descriptor, F_SETFL, is_blocking_already ? flags ^ O_NONBLOCK : flags ^= O_NONBLOCK);
+    flags = fcntl(socket_descriptor, F_SETFL, should_block ? flags & ~O_NONBLOCK : flags | O_NONBLOCK);
     if(flags < 0)
         return false;
 #endif
diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index eb42303..e4b22e3 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -106,6 +106,12 @@ namespace fr
             return;
         }
         socket_descriptor = *static_cast<int32_t*>(descriptor);
+#ifdef _WIN32
+        is_blocking = true;
+#else
+        int flags = fcntl(socket_descriptor, F_GETFL, 0);
+        is_blocking = flags < 0 || (flags & O_NONBLOCK) == 0;
+#endif
         reconfigure_socket();
     }
 
@@ -196,6 +202,7 @@ namespace fr
         }
 
         //Update state now we've got a valid socket descriptor
+        is_blocking = true;
         set_remote_address(address + ":" + port);
         reconfigure_socket();
 
-- 
2.43.0


From 484120cfe602418cbfd36047c5debe964c5064b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 28/62] fix: INVALID_SOCKET was a valid descriptor

---
 include/frnetlib/NetworkEncoding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/NetworkEncoding.h b/include/frnetlib/NetworkEncoding.h
index 9071444..6afda06 100644
--- a/include/frnetlib/NetworkEncoding.h
+++ b/include/frnetlib/NetworkEncoding.h
@@ -31,7 +31,7 @@
 #endif
 
 #define closesocket(x) close(x)
-#define INVALID_SOCKET 0
+#define INVALID_SOCKET (-1)
 #define SOCKET_ERROR (-1)
 
 #include <unistd.h>
-- 
2.43.0


From 7a732f745ec00549cefb35e273aaef3629d4a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 29/62] fix: TcpSocket::connect overflowed an fd_set for
 descriptors above FD_SETSIZE

---
 src/TcpSocket.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index e4b22e3..5e8e6e2 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -2,7 +2,12 @@
 // Created by fred on 06/12/16.
 //
 
+#include <algorithm>
 #include <iostream>
+#include <limits>
+#ifndef _WIN32
+#include <poll.h>
+#endif
 #include <frnetlib/SocketSelector.h>
 #include <frnetlib/TcpSocket.h>
 #define DEFAULT_SOCKET_TIMEOUT 20
@@ -169,13 +174,22 @@ namespace fr
             }
 
             //Wait for the socket to do something/expire
+            auto timeout_secs = static_cast<int64_t>(timeout.count() == 0 ? DEFAULT_SOCKET_TIMEOUT : timeout.count());
+#ifdef _WIN32
             timeval tv = {};
-            tv.tv_sec = timeout.count() == 0 ? DEFAULT_SOCKET_TIMEOUT : timeout.count();
+            tv.tv_sec = timeout_secs;
             tv.tv_usec = 0;
             fd_set set = {};
             FD_ZERO(&set);
             FD_SET(socket_descriptor, &set);
             ret = select(socket_descriptor + 1, nullptr, &set, nullptr, &tv);
+#else
+            //poll() rather than select(), which can't deal with descriptors above FD_SETSIZE
+            pollfd poll_descriptor = {};
+            poll_descriptor.fd = socket_descriptor;
+            poll_descriptor.events = POLLOUT;
+            ret = poll(&poll_descriptor, 1, static_cast<int>(std::min<int64_t>(timeout_secs, std::numeric_limits<int>::max() / 1000) * 1000));
+#endif
             if(ret <= 0)
                 continue;
 
-- 
2.43.0


From 3a184160cab99f2360e235623134eec491a0f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 30/62] fix: TcpListener::listen leaked descriptors or closed
 them twice after a failure

---
 src/TcpListener.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index fb0226c..15632f7 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -25,6 +25,9 @@ namespace fr
 
     Socket::Status TcpListener::listen(const std::string &port)
     {
+        //Stop listening to the previous port, if there is one
+        TcpListener::close_socket();
+
         addrinfo *info;
         addrinfo hints{};
 
@@ -41,7 +44,7 @@ namespace fr
 
         //Try each of the results until we listen successfully
         addrinfo *c = nullptr;
-        for(c = info; c != nullptr; c = c->ai_next)
+        for(c = info; c != nullptr; TcpListener::close_socket(), c = c->ai_next)
         {
             //Attempt to connect
             if((socket_descriptor = socket(c->ai_family, c->ai_socktype, c->ai_protocol)) == INVALID_SOCKET)
@@ -72,7 +75,6 @@ namespace fr
             //Attempt to bind
             if(bind(socket_descriptor, c->ai_addr, c->ai_addrlen) == SOCKET_ERROR)
             {
-                closesocket(socket_descriptor);
                 continue;
             }
             break;
@@ -91,6 +93,7 @@ namespace fr
         //Listen to socket
         if(::listen(socket_descriptor, LISTEN_QUEUE_SIZE) == SOCKET_ERROR)
         {
+            TcpListener::close_socket();
             return Socket::Status::ListenFailed;
         }
         return Socket::Status::Success;
-- 
2.43.0


From 4c6e1935f62bed36f5b271c4502bb57c2804ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 31/62] fix: a moved TcpListener and its source both closed the
 same descriptor

---
 include/frnetlib/TcpListener.h | 2 +-
 src/TcpListener.cpp            | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/TcpListener.h b/include/frnetlib/TcpListener.h
index 1e0c29a..fc71114 100644
--- a/include/frnetlib/TcpListener.h
+++ b/include/frnetlib/TcpListener.h
@@ -19,7 +19,7 @@ public:
     TcpListener();
 
     ~TcpListener() override;
-    TcpListener(TcpListener &&o) = default;
+    TcpListener(TcpListener &&o) noexcept;
 
     /*!
      * Listens to the given port for connections
diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index 15632f7..49be77f 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -18,6 +18,13 @@ namespace fr
 
     }
 
+    TcpListener::TcpListener(TcpListener &&o) noexcept
+            : Listener(o),
+              socket_descriptor(o.socket_descriptor)
+    {
+        o.socket_descriptor = -1;
+    }
+
     TcpListener::~TcpListener()
     {
         close_socket();
-- 
2.43.0


From e581184f2bde61a4bf9329aca1bb7c0e0c4dbf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 32/62] fix: accepting into a connected TcpSocket leaked its
 descriptor

---
 src/TcpSocket.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index 5e8e6e2..a053403 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -110,7 +110,10 @@ namespace fr
             socket_descriptor = -1;
             return;
         }
-        socket_descriptor = *static_cast<int32_t*>(descriptor);
+        int32_t new_descriptor = *static_cast<int32_t*>(descriptor);
+        if(new_descriptor != socket_descriptor)
+            TcpSocket::close_socket();
+        socket_descriptor = new_descriptor;
 #ifdef _WIN32
         is_blocking = true;
 #else
-- 
2.43.0


From 74f99abf24d163f6cc45cc7465f1a75e752ccec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 33/62] fix: a signal made TcpSocket::connect give up on an
 address

---
 src/TcpSocket.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index a053403..2924dd9 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -191,7 +191,10 @@ namespace fr
             pollfd poll_descriptor = {};
             poll_descriptor.fd = socket_descriptor;
             poll_descriptor.events = POLLOUT;
-            ret = poll(&poll_descriptor, 1, static_cast<int>(std::min<int64_t>(timeout_secs, std::numeric_limits<int>::max() / 1000) * 1000));
+            do
+            {
+                ret = poll(&poll_descriptor, 1, static_cast<int>(std::min<int64_t>(timeout_secs, std::numeric_limits<int>::max() / 1000) * 1000));
+            } while(ret < 0 && errno == EINTR);
 #endif
             if(ret <= 0)
                 continue;
-- 
2.43.0


From 21522a090c21bb9710da562eb7adb289acd8c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 34/62] fix: a failed WebSocket handshake left the connection
 open, or went unnoticed

---
 include/frnetlib/WebSocket.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 20f8187..611593e 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -59,16 +59,22 @@ namespace fr
 
             status = SocketType::send(request);
             if(status != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 return status;
+            }
 
             //Receive the response
             HttpResponse response;
             status = SocketType::receive(response);
             if(status != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 return status;
+            }
             if(response.get_status() != Http::RequestStatus::SwitchingProtocols)
             {
-                disconnect();
+                SocketType::close_socket();
                 errno = EPROTO;
                 return Socket::Status::HandshakeFailed;
             }
@@ -77,7 +83,7 @@ namespace fr
             std::string derived_key = response.header("sec-websocket-accept");
             if(derived_key != Base64::encode(Sha1::sha1_digest(websocket_key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")))
             {
-                disconnect();
+                SocketType::close_socket();
                 errno = EPROTO;
                 return Socket::Status::HandshakeFailed;
             }
@@ -128,10 +134,16 @@ namespace fr
             //Initialise connection, receive the handshake
             HttpRequest request;
             if(SocketType::receive(request) != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 throw std::runtime_error("Failed to receive WebSock handshake");
+            }
 
             if(request.header("Upgrade") != "websocket" || request.get_type() != Http::RequestType::Get)
+            {
+                SocketType::close_socket();
                 throw std::runtime_error("Client isn't using the WebSock protocol");
+            }
 
             //Calculate the derived key, then send back our response
             std::string derived_key = Base64::encode(Sha1::sha1_digest(request.header("sec-websocket-key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"));
@@ -140,7 +152,11 @@ namespace fr
             response.header("Upgrade") = "websocket";
             response.header("Connection") = "Upgrade";
             response.header("Sec-WebSocket-Accept") = derived_key;
-            SocketType::send(response);
+            if(SocketType::send(response) != Socket::Status::Success)
+            {
+                SocketType::close_socket();
+                throw std::runtime_error("Failed to send WebSock handshake");
+            }
         }
     };
 }
-- 
2.43.0


From 0b571d6357c19337599f9f917e718f94212d454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 35/62] fix: WebSocket frames received together with the
 handshake were lost

---
 include/frnetlib/WebSocket.h | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 611593e..08f59fb 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -66,7 +66,7 @@ namespace fr
 
             //Receive the response
             HttpResponse response;
-            status = SocketType::receive(response);
+            status = receive_handshake(response);
             if(status != Socket::Status::Success)
             {
                 SocketType::close_socket();
@@ -133,7 +133,7 @@ namespace fr
 
             //Initialise connection, receive the handshake
             HttpRequest request;
-            if(SocketType::receive(request) != Socket::Status::Success)
+            if(receive_handshake(request) != Socket::Status::Success)
             {
                 SocketType::close_socket();
                 throw std::runtime_error("Failed to receive WebSock handshake");
@@ -158,6 +158,35 @@ namespace fr
                 throw std::runtime_error("Failed to send WebSock handshake");
             }
         }
+
+    private:
+
+        /*!
+         * Receives a handshake message. Nothing beyond its end is read from
+         * the connection, as the frames following it would be lost otherwise.
+         *
+         * @param message Where to store the message
+         * @return Success if the message could be received, an error type on failure
+         */
+        Socket::Status receive_handshake(Http &message)
+        {
+            Socket::Status status;
+            do
+            {
+                char c = 0;
+                size_t received = 0;
+                status = SocketType::receive_raw(&c, sizeof(c), received);
+                if(status == Socket::Status::WouldBlock)
+                {
+                    status = Socket::Status::NotEnoughData;
+                    continue;
+                }
+                if(status != Socket::Status::Success)
+                    return status;
+                status = message.parse(&c, received);
+            } while(status == Socket::Status::NotEnoughData);
+            return status;
+        }
     };
 }
 
-- 
2.43.0


From d870cfb243d925aca4c33ede9c6b8d355a525a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 36/62] fix: WebSocket upgrade requests without a key were
 accepted, those spelling WebSocket in another case were not

---
 include/frnetlib/WebSocket.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 08f59fb..57c0099 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -5,6 +5,7 @@
 #ifndef FRNETLIB_WEBSOCKET_H
 #define FRNETLIB_WEBSOCKET_H
 
+#include <algorithm>
 #include <ctime>
 #include "frnetlib/Socket.h"
 #include "frnetlib/HttpRequest.h"
@@ -139,7 +140,9 @@ namespace fr
                 throw std::runtime_error("Failed to receive WebSock handshake");
             }
 
-            if(request.header("Upgrade") != "websocket" || request.get_type() != Http::RequestType::Get)
+            std::string protocol = request.header("Upgrade");
+            std::transform(protocol.begin(), protocol.end(), protocol.begin(), ::tolower);
+            if(protocol != "websocket" || request.get_type() != Http::RequestType::Get || request.header("sec-websocket-key").empty())
             {
                 SocketType::close_socket();
                 throw std::runtime_error("Client isn't using the WebSock protocol");
-- 
2.43.0


From c2ea01b1238eefb93bab5f879f076defb539a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 37/62] fix: a WebSocket server masked the frame which closes a
 connection

---
 include/frnetlib/WebSocket.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 57c0099..06060a6 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -21,6 +21,7 @@ namespace fr
     {
     public:
         WebSocket()
+        : is_server(false)
         {}
 
         /*!
@@ -37,6 +38,7 @@ namespace fr
         Socket::Status connect(const std::string &address, const std::string &port, const std::string &path,  const std::vector<std::string> &ws_protocols, std::chrono::seconds timeout)
         {
             //Establish a connection using the parent class
+            is_server = false;
             Socket::Status status = SocketType::connect(address, port, timeout);
             if(status != Socket::Status::Success)
                 return status;
@@ -112,7 +114,9 @@ namespace fr
          */
         void disconnect() override
         {
-            ClientWebFrame frame;
+            ClientWebFrame client_frame;
+            ServerWebFrame server_frame;
+            WebFrame &frame = is_server ? static_cast<WebFrame&>(server_frame) : static_cast<WebFrame&>(client_frame);
             frame.set_opcode(WebFrame::Opcode::Disconnect);
             if(SocketType::connected())
                 SocketType::send(frame);
@@ -133,6 +137,7 @@ namespace fr
                 return;
 
             //Initialise connection, receive the handshake
+            is_server = true;
             HttpRequest request;
             if(receive_handshake(request) != Socket::Status::Success)
             {
@@ -190,6 +195,8 @@ namespace fr
             } while(status == Socket::Status::NotEnoughData);
             return status;
         }
+
+        bool is_server; //True if a client has connected to us, false if we've connected to a server
     };
 }
 
-- 
2.43.0


From 3931c53dfe741bb0bd6a7c21fd7d8200573e2709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 38/62] fix: removing a closed socket from the selector threw
 or stopped watching another socket

---
 include/frnetlib/SocketSelector.h |  4 ++++
 src/SocketSelector.cpp            | 24 +++++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/frnetlib/SocketSelector.h b/include/frnetlib/SocketSelector.h
index 1b11fb6..5815641 100644
--- a/include/frnetlib/SocketSelector.h
+++ b/include/frnetlib/SocketSelector.h
@@ -69,6 +69,10 @@ namespace fr
         };
         int epoll_fd;
         std::unordered_map<uintptr_t, Opaque> added_sockets;
+        std::unordered_map<int32_t, const Opaque *> descriptor_owners;
+
+        //Stops watching the descriptor of a socket, if it's still that socket's
+        void remove_descriptor(const Opaque &entry);
 #endif
     };
 }
diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index f32dd84..8eff3f3 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -50,6 +50,7 @@ namespace fr
             added_sockets.erase(added_iter.first);
             throw std::runtime_error("Failed to add socket: " + std::to_string(errno));
         }
+        descriptor_owners[descriptor] = &added_iter.first->second;
     }
 
     std::vector<std::pair<std::shared_ptr<fr::SocketDescriptor>, void *>>
@@ -83,16 +84,29 @@ namespace fr
             return nullptr;
         }
 
-        if(epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0)
-        {
-            throw std::runtime_error("Failed to remove socket: " + std::to_string(iter->second.descriptor) + ". Errno: " + std::to_string(errno));
-        }
-
+        remove_descriptor(iter->second);
         void *opaque = iter->second.opaque;
         added_sockets.erase(iter);
         return opaque;
     }
 
+    void SocketSelector::remove_descriptor(const Opaque &entry)
+    {
+        //A closed descriptor could have been re-used by another socket since, which mustn't be affected
+        auto owner = descriptor_owners.find(entry.descriptor);
+        if(owner == descriptor_owners.end() || owner->second != &entry)
+        {
+            return;
+        }
+        descriptor_owners.erase(owner);
+
+        //These mean that it has been closed, and so that EPOLL has already forgotten it
+        if(epoll_ctl(epoll_fd, EPOLL_CTL_DEL, entry.descriptor, nullptr) < 0 && errno != ENOENT && errno != EBADF && errno != EPERM)
+        {
+            throw std::runtime_error("Failed to remove socket: " + std::to_string(entry.descriptor) + ". Errno: " + std::to_string(errno));
+        }
+    }
+
 #endif
 }
 
-- 
2.43.0


From 68fec8f5161035f6ebdae4688b793de9b7c9aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 39/62] fix: a socket which was closed and opened again
 couldn't be added to the selector again

---
 src/SocketSelector.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index 8eff3f3..b532c81 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -36,21 +36,35 @@ namespace fr
         }
 
         auto added_iter = added_sockets.emplace((uintptr_t)socket.get(), Opaque(socket, opaque, descriptor));
-        if(!added_iter.second)
-        {
-            throw std::logic_error("Can't add duplicate socket");
-        }
+        Opaque &entry = added_iter.first->second;
 
         epoll_event event = {0};
         event.events = EPOLLIN | EPOLLHUP | EPOLLERR | EPOLLRDHUP;
-        event.data.ptr = &added_iter.first->second;
+        event.data.ptr = &entry;
 
         if(epoll_ctl(epoll_fd, EPOLL_CTL_ADD, descriptor, &event) < 0)
         {
-            added_sockets.erase(added_iter.first);
-            throw std::runtime_error("Failed to add socket: " + std::to_string(errno));
+            if(!added_iter.second && errno == EEXIST)
+            {
+                throw std::logic_error("Can't add duplicate socket");
+            }
+
+            auto error = std::to_string(errno);
+            if(added_iter.second)
+            {
+                added_sockets.erase(added_iter.first);
+            }
+            throw std::runtime_error("Failed to add socket: " + error);
+        }
+
+        //If it was a member already, then it has been closed and opened again since being added
+        if(entry.descriptor != descriptor)
+        {
+            remove_descriptor(entry);
         }
-        descriptor_owners[descriptor] = &added_iter.first->second;
+        entry.opaque = opaque;
+        entry.descriptor = descriptor;
+        descriptor_owners[descriptor] = &entry;
     }
 
     std::vector<std::pair<std::shared_ptr<fr::SocketDescriptor>, void *>>
-- 
2.43.0


From 55ac18b61cd5574791fe2d31c89e6e5bc1e491f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:56 +0000
Subject: [PATCH 40/62] fix: parsing a URL into a used object kept parts of the
 old one

---
 include/frnetlib/URL.h | 2 +-
 src/URL.cpp            | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/URL.h b/include/frnetlib/URL.h
index ebae4a7..eafdf46 100644
--- a/include/frnetlib/URL.h
+++ b/include/frnetlib/URL.h
@@ -218,7 +218,7 @@ namespace fr
         }
 
         //State
-        Scheme scheme;
+        Scheme scheme = Scheme::Unknown;
         std::string host;
         std::string port;
         std::string path;
diff --git a/src/URL.cpp b/src/URL.cpp
index 0642060..a08c714 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -29,6 +29,11 @@ namespace fr
     void URL::parse(const std::string &url)
     {
         scheme = Scheme::Unknown;
+        host.clear();
+        port.clear();
+        path.clear();
+        query.clear();
+        fragment.clear();
         size_t parse_offset = 0;
         size_t pos = 0;
 
-- 
2.43.0


From 4dd58580aec704916f6df2d2857b74d654cd673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:56 +0000
Subject: [PATCH 41/62] fix: the ftp scheme was unknown, sftp was taken for it
 and had the port of smtp

---
 src/URL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index a08c714..3f29dfd 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -13,7 +13,7 @@ namespace fr
     std::unordered_map<std::string, URL::Scheme> URL::scheme_string_map = {
             {"http",    URL::HTTP},
             {"https",   URL::HTTPS},
-            {"sftp",    URL::FTP},
+            {"ftp",     URL::FTP},
             {"mailto",  URL::MAILTO},
             {"irc",     URL::IRC},
             {"sftp",    URL::SFTP},
@@ -89,7 +89,7 @@ namespace fr
                     port = "21";
                     break;
                 case URL::SFTP:
-                    port = "25";
+                    port = "22";
                     break;
                 default:
                     break;
-- 
2.43.0


From ecc6a6ff2765f5e744da5b255b328a351dbb63b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 42/62] fix: URLs were split at separators inside their path,
 query or fragment

---
 src/URL.cpp | 74 +++++++++++++++++++----------------------------------
 1 file changed, 27 insertions(+), 47 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 3f29dfd..8ae4beb 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -37,42 +37,36 @@ namespace fr
         size_t parse_offset = 0;
         size_t pos = 0;
 
-        //Check to see if a scheme exists
+        //Check to see if a scheme exists, nothing else can come before it
         pos = url.find("://");
-        if(pos != std::string::npos)
+        if(pos != std::string::npos && pos == url.find_first_of(":/?#"))
         {
             auto scheme_pos = scheme_string_map.find(to_lower(url.substr(0, pos)));
             scheme = (scheme_pos == scheme_string_map.end()) ? URL::Unknown : scheme_pos->second;
             parse_offset = pos + 3; // skip the ://
         }
 
+        //Find the end of the host and port
+        size_t host_end = std::min(url.find_first_of("/?#", parse_offset), url.size());
+
         //Check to see if there's a port
         pos = url.find(':', parse_offset);
-        if(pos != std::string::npos) //A port is provided
+        if(pos < host_end) //A port is provided
         {
             //Store host
             host = url.substr(parse_offset, pos - parse_offset);
-            parse_offset += host.size();
-
-            //Find end of port
-            size_t port_end = url.find('/', parse_offset);
-            port_end = (port_end == std::string::npos) ? url.size() : port_end;
-            port = url.substr(pos + 1, port_end - pos - 1);
-            parse_offset = port_end + 1;
+            port = url.substr(pos + 1, host_end - pos - 1);
+            parse_offset = host_end;
         }
-        else //There's no port
+        else if(host_end != url.size() || parse_offset != 0) //There's no port
         {
             //Store host
-            pos = url.find('/', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('#', parse_offset);
-            if(pos != std::string::npos || parse_offset != 0)
-            {
-                pos = (pos != std::string::npos) ? pos : url.size();
-                host = url.substr(parse_offset, pos - parse_offset);
-                parse_offset = pos + 1;
-            }
+            host = url.substr(parse_offset, host_end - parse_offset);
+            parse_offset = host_end;
+        }
 
+        if(port.empty())
+        {
             //Guess port based on scheme, if it's not explicitly provided.
             switch(scheme)
             {
@@ -96,41 +90,27 @@ namespace fr
             }
         }
 
-        //Exit if done
-        if(parse_offset >= url.size())
-            return;
-
         //Extract the path
-        pos = url.find('?', parse_offset);
-        if(pos != std::string::npos)
-        {
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
-        else
+        pos = std::min(url.find_first_of("?#", parse_offset), url.size());
+        if(pos != parse_offset)
         {
-            pos = url.find('#', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.size();
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
+            if(url[parse_offset] != '/')
+                path = "/";
+            path.append(url, parse_offset, pos - parse_offset);
+            parse_offset = pos;
         }
 
         //Extract the query
-        pos = url.find('#', parse_offset - 1);
-        if(pos != std::string::npos)
-        {
-            if(pos + 1 != parse_offset)
-                query = url.substr(parse_offset, pos - parse_offset);
-            fragment = url.substr(pos + 1, url.size() - pos - 1);
-        }
-        else
+        if(parse_offset < url.size() && url[parse_offset] == '?')
         {
-            if(parse_offset >= url.size())
-                return;
-            query = url.substr(parse_offset, url.size() - parse_offset);
+            pos = std::min(url.find('#', parse_offset), url.size());
+            query = url.substr(parse_offset + 1, pos - parse_offset - 1);
+            parse_offset = pos;
         }
 
+        //Extract the fragment
+        if(parse_offset < url.size())
+            fragment = url.substr(parse_offset + 1);
     }
 
     URL::Scheme URL::string_to_scheme(const std::string &scheme)
-- 
2.43.0


From cdd04fdb072e913fe063731c6822dbacd315452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 43/62] fix: Base64 encoding of less than 2 bytes read out of
 bounds

---
 src/Base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index 6ff83ae..f66eb90 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -15,7 +15,7 @@ namespace fr
         size_t a;
 
         //Do as many sets of 3 bytes as we can
-        for(a = 0; a < input.size() - 2; a += 3)
+        for(a = 0; a + 2 < input.size(); a += 3)
         {
             out += base64_table[(input[a] >> 2) & 0x3F]; //Store the first 6 bits of the first byte
             out += base64_table[((input[a] & 0x3) << 4) | (input[a + 1] & 0xF0) >> 4]; //Store the last 2 bits of the first byte combined with the first 4 bits of the second byte
@@ -27,7 +27,7 @@ namespace fr
         if(a < input.size())
         {
             out += base64_table[(input[a] >> 2) & 0x3F]; //Store first 6 bits of the first byte
-            if(a == input.size() - 2) //There's 2 bytes left
+            if(a + 2 == input.size()) //There's 2 bytes left
             {
                 out += base64_table[((input[a] & 0x3) << 4) | (input[a + 1] & 0xF0) >> 4]; //Store last 2 bits of first byte, and first 4 bits of second byte
                 out += base64_table[(input[a + 1] & 0xF) << 2]; //Finally store the last 4 bits of the second byte
-- 
2.43.0


From c1a8bad8763101c084ce78afe7a5f97348093c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 44/62] fix: url_decode read out of bounds, and mangled lower
 case and malformed escapes

---
 src/Http.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index 96917ff..12eb751 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -168,10 +168,10 @@ namespace fr
         std::string result;
         for(size_t a = 0; a < str.size(); a++)
         {
-            if(str[a] == '%' && a < str.size() - 1)
+            if(str[a] == '%' && str.size() - a > 2 && std::isxdigit((uint8_t)str[a + 1]) && std::isxdigit((uint8_t)str[a + 2]))
             {
-                int ch1 = str[++a] - 48;
-                int ch2 = str[++a] - 48;
+                int ch1 = std::toupper(str[++a]) - 48;
+                int ch2 = std::toupper(str[++a]) - 48;
                 if(ch1 > 9) ch1 -= 7;
                 if(ch2 > 9) ch2 -= 7;
                 uint8_t ret = 0;
-- 
2.43.0


From 2e87680fc7cb6460eb2cd77fa0278b83238bbf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 45/62] fix: jpeg, jpg, atom and rss files had no MIME type

---
 src/Http.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index 12eb751..c3c0e86 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -324,7 +324,7 @@ namespace fr
                 {".s", "text/x-asm"},
                 {".atomcat", "application/atomcat+xml"},
                 {".atomsvc", "application/atomsvc+xml"},
-                {".atom, .xml", "application/atom+xml"},
+                {".atom", "application/atom+xml"},
                 {".ac", "application/pkix-attr-cert"},
                 {".aif", "audio/x-aiff"},
                 {".avi", "video/x-msvideo"},
@@ -545,8 +545,8 @@ namespace fr
                 {".json", "application/json"},
                 {".joda", "application/vnd.joost.joda-archive"},
                 {".jpm", "video/jpm"},
-                {".jpeg, .jpg", "image/jpeg"},
-                {".jpeg, .jpg", "image/x-citrix-jpeg"},
+                {".jpeg", "image/jpeg"},
+                {".jpg", "image/jpeg"},
                 {".pjpeg", "image/pjpeg"},
                 {".jpgv", "video/jpeg"},
                 {".ktz", "application/vnd.kahootz"},
@@ -823,7 +823,7 @@ namespace fr
                 {".rtf", "application/rtf"},
                 {".rtx", "text/richtext"},
                 {".link66", "application/vnd.route66.link66+xml"},
-                {".rss, .xml", "application/rss+xml"},
+                {".rss", "application/rss+xml"},
                 {".shf", "application/shf+xml"},
                 {".st", "application/vnd.sailingtracker.track"},
                 {".svg", "image/svg+xml"},
-- 
2.43.0


From 3a473d920c8d6f134082ed4c2073ae118d630a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 46/62] fix: CA certificates could never be loaded from memory

mbedtls_x509_crt_parse() wants the terminator of a PEM text to be counted.
---
 include/frnetlib/SSLContext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/SSLContext.h b/include/frnetlib/SSLContext.h
index cf39e45..226ee07 100644
--- a/include/frnetlib/SSLContext.h
+++ b/include/frnetlib/SSLContext.h
@@ -57,7 +57,7 @@ namespace fr
          */
         bool load_ca_certs_from_memory(const std::string &ca_certs)
         {
-            return mbedtls_x509_crt_parse(&cacert, (const unsigned char *)ca_certs.c_str(), ca_certs.size()) == 0;
+            return mbedtls_x509_crt_parse(&cacert, (const unsigned char *)ca_certs.c_str(), ca_certs.size() + 1) == 0;
         }
 
         /*!
-- 
2.43.0


From 49e34edad549ae5a1a922ec24c85f73e0d603204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 47/62] fix: a retried SSLSocket::send_raw sent everything
 again

'sent' says how much has been sent already, and a retry has to continue there.
---
 src/SSLSocket.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index faf3890..164b075 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -66,7 +66,6 @@ namespace fr
 
     Socket::Status SSLSocket::send_raw(const char *data, size_t size, size_t &sent)
     {
-        sent = 0;
         ssize_t status = 0;
 
         while(sent < size)
-- 
2.43.0


From b3cd7c2cfbc1d1f48ed767ef086fe74272efea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 48/62] fix: SSLSocket::set_blocking never made a socket
 non-blocking

It also dereferenced a null pointer when there was no connection.
---
 src/SSLSocket.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 164b075..b567e8d 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -244,7 +244,12 @@ namespace fr
 
     fr::Socket::Status SSLSocket::set_blocking(bool should_block)
     {
-        int ret = mbedtls_net_set_block(ssl_socket_descriptor.get());
+        if(!connected())
+        {
+            return fr::Socket::Status::Error;
+        }
+
+        int ret = should_block ? mbedtls_net_set_block(ssl_socket_descriptor.get()) : mbedtls_net_set_nonblock(ssl_socket_descriptor.get());
         if(ret != 0)
         {
             errno = ret;
-- 
2.43.0


From 7e24d9f34f6c774760db9cc61264ebca36bf873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:47 +0000
Subject: [PATCH 49/62] fix: SSLSocket::receive_raw spun instead of returning
 WouldBlock

It also left 'received' as it was when nothing was read, and reported the
peer closing the connection properly as an SSL error. The branch for a
receive timeout was never taken, and would have read past TLS.
---
 include/frnetlib/SSLSocket.h |  1 -
 src/SSLSocket.cpp            | 63 ++++++++----------------------------
 2 files changed, 13 insertions(+), 51 deletions(-)

diff --git a/include/frnetlib/SSLSocket.h b/include/frnetlib/SSLSocket.h
index 322d205..5452e57 100644
--- a/include/frnetlib/SSLSocket.h
+++ b/include/frnetlib/SSLSocket.h
@@ -146,7 +146,6 @@ namespace fr
         std::unique_ptr<mbedtls_ssl_context, decltype(&mbedtls_ssl_free)> ssl;
         mbedtls_ssl_config conf;
         bool should_verify;
-        uint32_t receive_timeout;
         bool is_blocking;
     };
 }
diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index b567e8d..294de31 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -42,7 +42,6 @@ namespace fr
        ssl_socket_descriptor(nullptr, web_free),
        ssl(nullptr, ssl_free),
        should_verify(true),
-       receive_timeout(0),
        is_blocking(true)
     {
         //Initialise mbedtls structures
@@ -94,66 +93,30 @@ namespace fr
 
     Socket::Status SSLSocket::receive_raw(void *data, size_t data_size, size_t &received)
     {
-        ssize_t status = 0;
-        if(receive_timeout == 0)
+        received = 0;
+        int status = mbedtls_ssl_read(ssl.get(), (unsigned char *) data, data_size);
+        if(status == 0 || status == MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY)
         {
-            do
-            {
-                status = mbedtls_ssl_read(ssl.get(), (unsigned char *) data, data_size);
-                if(status == 0)
-                {
-                    return Socket::Status::Disconnected;
-                }
-                if(status < 0)
-                {
-                    if(status == MBEDTLS_ERR_SSL_WANT_READ || status == MBEDTLS_ERR_SSL_WANT_WRITE)
-                    {
-                        if(is_blocking)
-                        {
-                            return Socket::Status::Timeout;
-                        }
-                        continue;
-                    }
-
-                    errno = static_cast<int>(status);
-                    return Socket::Status::SSLError;
-                }
-                break;
-            } while(true);
+            return Socket::Status::Disconnected;
         }
-        else
+
+        if(status < 0)
         {
-            do
+            if(status == MBEDTLS_ERR_SSL_WANT_READ || status == MBEDTLS_ERR_SSL_WANT_WRITE)
             {
-                status = mbedtls_net_recv_timeout(ssl.get(), (unsigned char *)data, data_size, receive_timeout);
-                if(status == 0)
+                if(is_blocking)
                 {
-                    return Socket::Status::Disconnected;
+                    return Socket::Status::Timeout;
                 }
+                return Socket::Status::WouldBlock;
+            }
 
-                if(status < 0)
-                {
-                    if(status == MBEDTLS_ERR_SSL_TIMEOUT)
-                    {
-                        return Socket::Status::WouldBlock;
-                    }
-
-                    if(status == MBEDTLS_ERR_SSL_WANT_READ)
-                    {
-                        continue; //try again, interrupted before anything could be received
-                    }
-
-                    errno = static_cast<int>(status);
-                    return Socket::Status::SSLError;
-                }
-                break;
-            } while(true);
+            errno = status;
+            return Socket::Status::SSLError;
         }
 
-
         received = static_cast<size_t>(status);
         return Socket::Status::Success;
-
     }
 
     Socket::Status SSLSocket::connect(const std::string &address, const std::string &port, std::chrono::seconds timeout)
-- 
2.43.0


From 275caaecb4ebcd13cf9e9c45c3b4135358aec2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:47 +0000
Subject: [PATCH 50/62] fix: a re-used SSLSocket reported the blocking mode of
 its last connection

---
 src/SSLSocket.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 294de31..1c79862 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -183,6 +183,7 @@ namespace fr
         }
 
         //Update state
+        is_blocking = true;
         reconfigure_socket();
 
         return Socket::Status::Success;
@@ -197,7 +198,15 @@ namespace fr
     {
         ssl_socket_descriptor.reset(static_cast<mbedtls_net_context*>(descriptor));
         if(descriptor)
+        {
+#ifdef _WIN32
+            is_blocking = true;
+#else
+            int flags = fcntl(get_socket_descriptor(), F_GETFL, 0);
+            is_blocking = flags < 0 || (flags & O_NONBLOCK) == 0;
+#endif
             reconfigure_socket();
+        }
     }
 
     void SSLSocket::verify_certificates(bool should_verify_)
-- 
2.43.0


From 00f7313514b32cad4e5eb791ad57ecc3359be6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:47 +0000
Subject: [PATCH 51/62] fix: an SSLSocket whose handshake or verification
 failed stayed connected

---
 src/SSLSocket.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 1c79862..3045680 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -131,7 +131,10 @@ namespace fr
             fr::TcpSocket socket;
             auto ret = socket.connect(address, port, timeout);
             if(ret != fr::Socket::Status::Success)
+            {
+                close_socket();
                 return ret;
+            }
             ssl_socket_descriptor->fd = socket.get_socket_descriptor();
             set_remote_address(socket.get_remote_address());
             socket.set_descriptor(nullptr);
@@ -141,6 +144,7 @@ namespace fr
         int error = 0;
         if((error = mbedtls_ssl_config_defaults(&conf, MBEDTLS_SSL_IS_CLIENT, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT)) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
@@ -151,12 +155,14 @@ namespace fr
 
         if((error = mbedtls_ssl_setup(ssl.get(), &conf)) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
 
         if((error = mbedtls_ssl_set_hostname(ssl.get(), address.c_str())) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
@@ -168,6 +174,7 @@ namespace fr
         {
             if(error != MBEDTLS_ERR_SSL_WANT_READ && error != MBEDTLS_ERR_SSL_WANT_WRITE)
             {
+                close_socket();
                 errno = error;
                 return Socket::Status::SSLError;
             }
@@ -178,6 +185,7 @@ namespace fr
         {
             if(mbedtls_ssl_get_verify_result(ssl.get()) != 0)
             {
+                close_socket();
                 return Socket::Status::VerificationFailed;
             }
         }
-- 
2.43.0


From 04467d87bbbe9b9a0f36345e6e6958a0c92dbf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:47 +0000
Subject: [PATCH 52/62] fix: SSLSocket ignored its timeouts, and took
 interruptions for them

---
 src/SSLSocket.cpp | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 3045680..3911b51 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -35,6 +35,36 @@ void web_free(mbedtls_net_context *ctx)
     delete ctx;
 }
 
+//A blocking socket only says that it would block once its timeout has passed, which mbedtls takes
+//for an error. And it has to carry on when interrupted, which mbedtls can't tell from blocking.
+int web_send(void *ctx, const unsigned char *data, size_t size)
+{
+    int ret = 0;
+    do
+    {
+        errno = 0;
+        ret = mbedtls_net_send(ctx, data, size);
+    } while(ret == MBEDTLS_ERR_SSL_WANT_WRITE && errno == EINTR);
+
+    if(ret == MBEDTLS_ERR_NET_SEND_FAILED && errno == EWOULDBLOCK)
+        return MBEDTLS_ERR_SSL_WANT_WRITE;
+    return ret;
+}
+
+int web_recv(void *ctx, unsigned char *data, size_t size)
+{
+    int ret = 0;
+    do
+    {
+        errno = 0;
+        ret = mbedtls_net_recv(ctx, data, size);
+    } while(ret == MBEDTLS_ERR_SSL_WANT_READ && errno == EINTR);
+
+    if(ret == MBEDTLS_ERR_NET_RECV_FAILED && errno == EWOULDBLOCK)
+        return MBEDTLS_ERR_SSL_WANT_READ;
+    return ret;
+}
+
 namespace fr
 {
     SSLSocket::SSLSocket(std::shared_ptr<SSLContext> ssl_context_) noexcept
@@ -167,7 +197,7 @@ namespace fr
             return Socket::Status::SSLError;
         }
 
-        mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), mbedtls_net_send, mbedtls_net_recv, nullptr);
+        mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), web_send, web_recv, nullptr);
 
         //Do SSL handshake
         while((error = mbedtls_ssl_handshake(ssl.get())) != 0)
@@ -213,6 +243,8 @@ namespace fr
             int flags = fcntl(get_socket_descriptor(), F_GETFL, 0);
             is_blocking = flags < 0 || (flags & O_NONBLOCK) == 0;
 #endif
+            if(ssl)
+                mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), web_send, web_recv, nullptr);
             reconfigure_socket();
         }
     }
@@ -251,6 +283,17 @@ namespace fr
 #ifndef _WIN32
         //Disable Nagle's algorithm
         setsockopt(get_socket_descriptor(), SOL_TCP, TCP_NODELAY, (char*)&one, sizeof(one));
+
+        //Apply receive timeout
+        struct timeval tv = {};
+        tv.tv_sec = get_receive_timeout() / 1000;
+        tv.tv_usec = (get_receive_timeout() % 1000) * 1000;
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof tv);
+
+        //Apply send timeout
+        tv.tv_sec = get_send_timeout() / 1000;
+        tv.tv_usec = (get_send_timeout() % 1000) * 1000;
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_SNDTIMEO, (const char*)&tv, sizeof tv);
 #else
         //Disable Nagle's algorithm
         setsockopt(get_socket_descriptor(), IPPROTO_TCP, TCP_NODELAY, (char*)&one, sizeof(one));
-- 
2.43.0


From 850c487583d68ee8497071449579c35e2c424385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:10 +0000
Subject: [PATCH 53/62] fix: SSLSocket::connect ignored the IP version it was
 set to

---
 src/SSLSocket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 3911b51..d014b64 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -159,6 +159,8 @@ namespace fr
         //Open the descriptor, and then steal it. This is a hack.
         {
             fr::TcpSocket socket;
+            if(ai_family != AF_UNSPEC)
+                socket.set_inet_version(ai_family == AF_INET6 ? IP::v6 : IP::v4);
             auto ret = socket.connect(address, port, timeout);
             if(ret != fr::Socket::Status::Success)
             {
-- 
2.43.0


From cd030b05bf9b3a9a182a6e0ec685e049faa5b6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:47 +0000
Subject: [PATCH 54/62] fix: WebSocket clients used the time as their key,
 instead of 16 random bytes

---
 include/frnetlib/WebSocket.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 06060a6..bbd7972 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -6,7 +6,7 @@
 #define FRNETLIB_WEBSOCKET_H
 
 #include <algorithm>
-#include <ctime>
+#include <random>
 #include "frnetlib/Socket.h"
 #include "frnetlib/HttpRequest.h"
 #include "frnetlib/HttpResponse.h"
@@ -44,7 +44,12 @@ namespace fr
                 return status;
 
             //Send an upgrade request header
-            std::string websocket_key = Base64::encode(std::to_string(std::time(nullptr)));
+            //The key is 16 random bytes, picked anew for each connection (RFC 6455 4.1)
+            std::random_device random;
+            std::string nonce;
+            for(int i = 0; i < 16; i++)
+                nonce += static_cast<char>(random() & 0xFF);
+            std::string websocket_key = Base64::encode(nonce);
             HttpRequest request;
             request.header("sec-websocket-key") = websocket_key;
             request.header("sec-websocket-version") = "13";
-- 
2.43.0


From 39f86d5bdb1b18cc91b6aaeef1b252733bf104a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 55/62] fix: WebSocket could not be used with an SSLSocket: no
 constructor, close_socket out of reach

---
 include/frnetlib/SSLSocket.h |  5 +++--
 include/frnetlib/WebSocket.h | 10 ++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/SSLSocket.h b/include/frnetlib/SSLSocket.h
index 5452e57..ad4492f 100644
--- a/include/frnetlib/SSLSocket.h
+++ b/include/frnetlib/SSLSocket.h
@@ -133,14 +133,15 @@ namespace fr
          */
         bool connected() const final;
 
-
-    private:
+    protected:
 
         /*!
          * Close the connection.
          */
         void close_socket() override;
 
+    private:
+
         std::shared_ptr<SSLContext> ssl_context;
         std::unique_ptr<mbedtls_net_context, decltype(&mbedtls_net_free)> ssl_socket_descriptor;
         std::unique_ptr<mbedtls_ssl_context, decltype(&mbedtls_ssl_free)> ssl;
diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index bbd7972..40bac03 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -7,6 +7,7 @@
 
 #include <algorithm>
 #include <random>
+#include <utility>
 #include "frnetlib/Socket.h"
 #include "frnetlib/HttpRequest.h"
 #include "frnetlib/HttpResponse.h"
@@ -20,8 +21,13 @@ namespace fr
     class WebSocket : public SocketType
     {
     public:
-        WebSocket()
-        : is_server(false)
+        /*!
+         * Constructs the WebSocket, passing anything given on to
+         * the underlying socket (an SSLSocket needs its SSLContext).
+         */
+        template<typename ...Args>
+        explicit WebSocket(Args &&...args)
+        : SocketType(std::forward<Args>(args)...), is_server(false)
         {}
 
         /*!
-- 
2.43.0


From b5be0cd218734f6442985ad21aa1aa460adec29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:41 +0000
Subject: [PATCH 56/62] fix: a request method has to be the whole word

Methods are recognised by their beginning, so that a request starting with
'GETX' or 'POSTCARD' was parsed as GET or POST instead of being refused.
---
 src/HttpRequest.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index dc0a06d..009aebe 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -198,7 +198,9 @@ namespace fr
         auto type_end = str.find(' ');
         if(type_end != std::string::npos)
         {
-            return string_to_request_type(str.substr(0, type_end));
+            //It has to be the whole word, 'GETX' isn't 'GET'
+            auto type = string_to_request_type(str.substr(0, type_end));
+            return request_type_to_string(type).size() == type_end ? type : Http::RequestType::Unknown;
         }
         return Http::RequestType::Unknown;
     }
-- 
2.43.0


From c8a9b15740da7f5999ac30d43c0bc804933d7b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 57/62] fix: connect's timeout started again with every signal

---
 src/TcpSocket.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index 2924dd9..9c0c812 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <algorithm>
+#include <chrono>
 #include <iostream>
 #include <limits>
 #ifndef _WIN32
@@ -191,9 +192,16 @@ namespace fr
             pollfd poll_descriptor = {};
             poll_descriptor.fd = socket_descriptor;
             poll_descriptor.events = POLLOUT;
+            const auto started = std::chrono::steady_clock::now();
+            const int64_t timeout_ms = std::min<int64_t>(timeout_secs, std::numeric_limits<int>::max() / 1000) * 1000;
+            int64_t remaining_ms = timeout_ms;
             do
             {
-                ret = poll(&poll_descriptor, 1, static_cast<int>(std::min<int64_t>(timeout_secs, std::numeric_limits<int>::max() / 1000) * 1000));
+                ret = poll(&poll_descriptor, 1, static_cast<int>(remaining_ms));
+
+                //If it's interrupted then only wait for what's left of the timeout
+                remaining_ms = timeout_ms - std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - started).count();
+                remaining_ms = std::max<int64_t>(remaining_ms, 0);
             } while(ret < 0 && errno == EINTR);
 #endif
             if(ret <= 0)
-- 
2.43.0


From b59801765732cbebe736b9ed45e50f60a06deb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 58/62] fix: an SSL socket without a descriptor used the freed
 one

---
 src/SSLSocket.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index d014b64..f2e47ed 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -249,6 +249,11 @@ namespace fr
                 mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), web_send, web_recv, nullptr);
             reconfigure_socket();
         }
+        else
+        {
+            //The session has lost its connection, and must not use it any more
+            ssl = nullptr;
+        }
     }
 
     void SSLSocket::verify_certificates(bool should_verify_)
-- 
2.43.0


From 1b1a55215e592d2ccfad7f4c15338a79193af782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 59/62] fix: a packet that was moved from had no space for its
 header

---
 include/frnetlib/Packet.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index f1383eb..9b36cc6 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -32,6 +32,28 @@ namespace fr
 
         }
 
+        Packet(const Packet &)=default;
+        Packet &operator=(const Packet &)=default;
+
+        //Moving leaves an empty packet behind, which still has space for the header
+        Packet(Packet &&o) noexcept
+        : buffer(std::move(o.buffer)),
+          buffer_read_index(o.buffer_read_index)
+        {
+            o.clear();
+        }
+
+        Packet &operator=(Packet &&o) noexcept
+        {
+            if(this != &o)
+            {
+                buffer = std::move(o.buffer);
+                buffer_read_index = o.buffer_read_index;
+                o.clear();
+            }
+            return *this;
+        }
+
         //Nasty constructor to allow things like Packet{1, 2, 3, "bob"}.
         template <typename T, typename ...Args>
         Packet(T const &part, Args &&...args)
-- 
2.43.0


From 17035a4cc6fc43289dae873888af040a033ac786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:15 +0000
Subject: [PATCH 60/62] fix: an SSL listener that could not load its files kept
 what it had loaded

---
 src/SSLListener.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/SSLListener.cpp b/src/SSLListener.cpp
index 51796b0..547ae3f 100644
--- a/src/SSLListener.cpp
+++ b/src/SSLListener.cpp
@@ -26,10 +26,19 @@ namespace fr
 
         int error = 0;
 
+        //The destructor won't run if we throw, so anything loaded so far has to be freed first
+        auto free_loaded = [&]()
+        {
+            mbedtls_x509_crt_free(&srvcert);
+            mbedtls_pk_free(&pkey);
+            mbedtls_ssl_config_free(&conf);
+        };
+
         //Load public key
         error = mbedtls_x509_crt_parse_file(&srvcert, pem_path.c_str());
         if(error != 0)
         {
+            free_loaded();
             throw std::runtime_error("Error parsing '" + pem_path + "': mbedtls_x509_crt_parse_file() returned " + std::to_string(error));
         }
 
@@ -37,6 +46,7 @@ namespace fr
         error = mbedtls_pk_parse_keyfile(&pkey, private_key_path.c_str(), 0);
         if(error != 0)
         {
+            free_loaded();
             throw std::runtime_error("Error parsing '" + private_key_path + "': mbedtls_pk_parse_keyfile() returned " + std::to_string(error));
         }
 
@@ -44,6 +54,7 @@ namespace fr
         error = mbedtls_ssl_config_defaults(&conf, MBEDTLS_SSL_IS_SERVER, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT);
         if(error != 0)
         {
+            free_loaded();
             throw std::runtime_error("mbedtls_ssl_config_defaults() returned: " + std::to_string(error));
         }
         mbedtls_ssl_conf_rng(&conf, mbedtls_ctr_drbg_random, &ssl_context->ctr_drbg);
-- 
2.43.0


From adecc21e101e263dbc1835a35d8d4cc915bb4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 61/62] fix: a length or status with something else than digits
 in it was accepted

---
 include/frnetlib/Http.h |  9 +++++++++
 src/Http.cpp            | 10 ++++++++++
 src/HttpRequest.cpp     |  2 +-
 src/HttpResponse.cpp    |  4 ++--
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/frnetlib/Http.h b/include/frnetlib/Http.h
index 7bf0566..4249fbc 100644
--- a/include/frnetlib/Http.h
+++ b/include/frnetlib/Http.h
@@ -391,6 +391,15 @@ namespace fr
          */
         static std::vector<std::pair<std::string, std::string>> parse_argument_list(const std::string &str);
 
+        /*!
+         * Checks that a field consists of a decimal number, which may be surrounded by spaces, and
+         * nothing else. Throws an std::invalid_argument if not.
+         *
+         * @param str The field to check
+         * @return The field
+         */
+        static const std::string &assert_number(const std::string &str);
+
         /*!
          * Parses a header line in a HTTP request/response
          *
diff --git a/src/Http.cpp b/src/Http.cpp
index c3c0e86..780553b 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -237,6 +237,16 @@ namespace fr
         return list;
     }
 
+    const std::string &Http::assert_number(const std::string &str)
+    {
+        const char *spaces = " \t\r";
+        auto begin = str.find_first_not_of(spaces);
+        auto end = str.find_last_not_of(spaces);
+        if(begin == std::string::npos || str.find_first_not_of("0123456789", begin) <= end)
+            throw std::invalid_argument("Not a number: " + str);
+        return str;
+    }
+
     void Http::parse_header_line(const std::string &str)
     {
         size_t colon_pos = str.find(':');
diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 009aebe..5500358 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -100,7 +100,7 @@ namespace fr
             //Store content length value if it exists
             auto length_header_iter = header_data.find("content-length");
             if(length_header_iter != header_data.end())
-                content_length = (size_t)std::stoull(length_header_iter->second);
+                content_length = (size_t)std::stoull(assert_number(length_header_iter->second));
         }
         catch(const std::exception &e)
         {
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index a892990..d58af79 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -182,7 +182,7 @@ namespace fr
             if(status_begin == std::string::npos)
                 return false;
             auto end_pos = header_lines[0].find(' ', status_begin + 1);
-            status = (RequestStatus)std::stoi(header_lines[0].substr(status_begin, end_pos - status_begin));
+            status = (RequestStatus)std::stoi(assert_number(header_lines[0].substr(status_begin, end_pos - status_begin)));
 
             //Get HTTP version
             static_assert((uint32_t)RequestVersion::VersionCount == 3, "Update me");
@@ -198,7 +198,7 @@ namespace fr
             //Store content length value if it exists
             auto length_header_iter = header_data.find("content-length");
             if(length_header_iter != header_data.end())
-                content_length = std::stoull(length_header_iter->second);
+                content_length = std::stoull(assert_number(length_header_iter->second));
         }
         catch(const std::exception &e)
         {
-- 
2.43.0


From 998036c172b6915d34f248ba6fb6f203bb87d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:12 +0000
Subject: [PATCH 62/62] fix: a chunk size followed by something else than an
 extension was accepted

---
 src/HttpResponse.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index d58af79..2875120 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -86,12 +86,17 @@ namespace fr
                 }
 
                 //It's chunked, find the length of the chunk in hex!
-                if(!isxdigit(static_cast<unsigned char>(body[chunk_offset])))
+                auto digits_end = body.find_first_not_of("0123456789abcdefABCDEF", chunk_offset);
+                if(digits_end == chunk_offset)
+                    return fr::Socket::Status::ParseError;
+
+                //Only an extension may follow it
+                if(digits_end != line_end && body[digits_end] != ';' && body[digits_end] != ' ' && body[digits_end] != '\t')
                     return fr::Socket::Status::ParseError;
                 size_t chunk_len;
                 try
                 {
-                    chunk_len = std::stoul(body.substr(chunk_offset, line_end - chunk_offset), nullptr, 16);
+                    chunk_len = std::stoul(body.substr(chunk_offset, digits_end - chunk_offset), nullptr, 16);
                 }
                 catch(const std::out_of_range &)
                 {
-- 
2.43.0

