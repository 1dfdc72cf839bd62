From 5c8291f8592f75b34e05d0a440ae396f8d715378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:16 +0000
Subject: [PATCH 01/91] fix: serialize created_at exactly in ids and event JSON

Timestamps of 1e15 and above were printed in exponent form and values
above 2^53 were rounded, so different events could share an id.
---
 src/event.c          | 14 ++++++++++++--
 src/relay_protocol.c |  5 ++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/event.c b/src/event.c
index 733e358..5de1cd3 100644
--- a/src/event.c
+++ b/src/event.c
@@ -280,6 +280,16 @@ static char* escape_json_string(const char* input)
 }
 #endif
 
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+/* cJSON numbers are doubles and print large integers in exponent form */
+static cJSON* create_int64_item(int64_t value)
+{
+    char buffer[32];
+    snprintf(buffer, sizeof(buffer), "%" PRId64, value);
+    return cJSON_CreateRaw(buffer);
+}
+#endif
+
 static char* serialize_for_id(const nostr_event* event)
 {
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
@@ -294,7 +304,7 @@ static char* serialize_for_id(const nostr_event* event)
     cJSON* serialization = cJSON_CreateArray();
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
     cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->created_at));
+    cJSON_AddItemToArray(serialization, create_int64_item(event->created_at));
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
 
     cJSON* tags_array = cJSON_CreateArray();
@@ -408,7 +418,7 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
     hex_buffer[64] = '\0';
     cJSON_AddStringToObject(root, "pubkey", hex_buffer);
 
-    cJSON_AddNumberToObject(root, "created_at", event->created_at);
+    cJSON_AddItemToObject(root, "created_at", create_int64_item(event->created_at));
     cJSON_AddNumberToObject(root, "kind", event->kind);
 
     cJSON* tags_array = cJSON_CreateArray();
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index a698e1b..8e2cb40 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -8,6 +8,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <time.h>
+#include <inttypes.h>
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
@@ -329,7 +330,9 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
 
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
     cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber((double)event->created_at));
+    char created_at[32];
+    snprintf(created_at, sizeof(created_at), "%" PRId64, event->created_at);
+    cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at));
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
 
     cJSON* tags_array = cJSON_CreateArray();
-- 
2.43.0


From 6d8946a3cd9cf2dcd472ca6aebc06f30dc1fc111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 02/91] fix: keep tag storage aligned and stable while a tag is
 added

Tag pointer arrays were placed at unaligned offsets of the arena, and a
value pointing into the event's own tags was read after the arena moved.
---
 src/event.c | 45 +++++++++++++++++++++++++++++----------------
 src/nip13.c |  4 +++-
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/event.c b/src/event.c
index 5de1cd3..43caea6 100644
--- a/src/event.c
+++ b/src/event.c
@@ -162,7 +162,23 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
         return NOSTR_ERR_INVALID_PARAM;
     }
     size_t total_size = values_size + strings_size;
-    
+
+    nostr_tag* new_tags = realloc(event->tags, sizeof(nostr_tag) * (event->tags_count + 1));
+    if (!new_tags) {
+        return NOSTR_ERR_MEMORY;
+    }
+    event->tags = new_tags;
+
+    /* the pointer array must be aligned, strings end anywhere */
+    size_t padding = (sizeof(char*) - event->tag_arena->used % sizeof(char*)) % sizeof(char*);
+    if (total_size > SIZE_MAX - padding - event->tag_arena->used) {
+        return NOSTR_ERR_MEMORY;
+    }
+    total_size += padding;
+
+    /* freed only once the values, which may point into it, are copied */
+    void* old_memory = NULL;
+
     if (event->tag_arena->used + total_size > event->tag_arena->capacity) {
         size_t new_capacity = event->tag_arena->capacity;
         size_t required = event->tag_arena->used + total_size;
@@ -172,20 +188,20 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
             new_capacity = doubled;
         }
         
-        void* old_memory = event->tag_arena->memory;
-        void* new_memory = realloc(event->tag_arena->memory, new_capacity);
+        void* new_memory = malloc(new_capacity);
         if (!new_memory) {
             return NOSTR_ERR_MEMORY;
         }
 
-        if (new_memory != old_memory) {
-            ptrdiff_t offset = (char*)new_memory - (char*)old_memory;
-            for (size_t i = 0; i < event->tags_count; i++) {
-                event->tags[i].values = (char**)((char*)event->tags[i].values + offset);
-                for (size_t j = 0; j < event->tags[i].count; j++) {
-                    if (event->tags[i].values[j]) {
-                        event->tags[i].values[j] += offset;
-                    }
+        old_memory = event->tag_arena->memory;
+        memcpy(new_memory, old_memory, event->tag_arena->used);
+
+        ptrdiff_t offset = (char*)new_memory - (char*)old_memory;
+        for (size_t i = 0; i < event->tags_count; i++) {
+            event->tags[i].values = (char**)((char*)event->tags[i].values + offset);
+            for (size_t j = 0; j < event->tags[i].count; j++) {
+                if (event->tags[i].values[j]) {
+                    event->tags[i].values[j] += offset;
                 }
             }
         }
@@ -194,11 +210,7 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
         event->tag_arena->capacity = new_capacity;
     }
 
-    nostr_tag* new_tags = realloc(event->tags, sizeof(nostr_tag) * (event->tags_count + 1));
-    if (!new_tags) {
-        return NOSTR_ERR_MEMORY;
-    }
-    event->tags = new_tags;
+    event->tag_arena->used += padding;
 
     nostr_tag* tag = &event->tags[event->tags_count];
     
@@ -219,6 +231,7 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
         tag->values[i] = string_storage;
         string_storage += len;
     }
+    free(old_memory);
 
     event->tags_count++;
     return NOSTR_OK;
diff --git a/src/nip13.c b/src/nip13.c
index 0adc5e6..9b1d4c7 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -167,9 +167,11 @@ nostr_error_t nostr_nip13_add_nonce_tag(nostr_event* event, uint64_t nonce_value
             if (event->tags[nonce_idx].count < 3) {
                 // Need to expand values array - allocate new array from arena
                 size_t new_values_size = 3 * sizeof(char*);
-                if (arena_ensure_capacity(event, new_values_size) != 0) {
+                size_t padding = (sizeof(char*) - event->tag_arena->used % sizeof(char*)) % sizeof(char*);
+                if (arena_ensure_capacity(event, padding + new_values_size) != 0) {
                     return NOSTR_ERR_MEMORY;
                 }
+                event->tag_arena->used += padding;
                 char** new_values = (char**)((char*)event->tag_arena->memory + event->tag_arena->used);
                 event->tag_arena->used += new_values_size;
                 new_values[0] = event->tags[nonce_idx].values[0];
-- 
2.43.0


From 17231c847ff6383f7061fa6752e83d656cfbeb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:25 +0000
Subject: [PATCH 03/91] fix: enforce max_tag_values and max_content_size, keep
 content on failure

---
 src/event.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/event.c b/src/event.c
index 43caea6..2ce3add 100644
--- a/src/event.c
+++ b/src/event.c
@@ -122,12 +122,18 @@ nostr_error_t nostr_event_set_content(nostr_event* event, const char* content)
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    free(event->content);
-    event->content = strdup(content);
-    if (!event->content) {
+    const nostr_config* config = nostr_config_get_current();
+    if (config && strlen(content) > config->max_content_size) {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
+    char* copy = strdup(content);
+    if (!copy) {
         return NOSTR_ERR_MEMORY;
     }
 
+    free(event->content);
+    event->content = copy;
     return NOSTR_OK;
 }
 
@@ -138,7 +144,7 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
     }
 
     const nostr_config* config = nostr_config_get_current();
-    if (config && event->tags_count >= config->max_tags) {
+    if (config && (event->tags_count >= config->max_tags || count > config->max_tag_values)) {
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-- 
2.43.0


From 836cbf631c107c303f3645dda826edc6d1d25383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:46 +0000
Subject: [PATCH 04/91] fix: reject non-hex characters in keys, ids and
 signatures

sscanf("%2hhx") accepts blanks, signs and 0x prefixes.
---
 src/event.c |  7 +------
 src/key.c   | 16 ++++++----------
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/event.c b/src/event.c
index 2ce3add..c09d2ec 100644
--- a/src/event.c
+++ b/src/event.c
@@ -474,12 +474,7 @@ static int hex_to_bytes(const char* hex, unsigned char* bytes, size_t bytes_len)
         return 0;
     }
 
-    for (size_t i = 0; i < bytes_len; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &bytes[i]) != 1) {
-            return 0;
-        }
-    }
-    return 1;
+    return nostr_hex_decode(hex, bytes, bytes_len) == (int)bytes_len;
 }
 
 nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
diff --git a/src/key.c b/src/key.c
index 8b511ed..53efd94 100644
--- a/src/key.c
+++ b/src/key.c
@@ -385,12 +385,10 @@ nostr_error_t nostr_key_from_hex(const char* hex, nostr_key* key) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &key->data[i]) != 1) {
-            return NOSTR_ERR_INVALID_KEY;
-        }
+    if (nostr_hex_decode(hex, key->data, NOSTR_PUBKEY_SIZE) != NOSTR_PUBKEY_SIZE) {
+        return NOSTR_ERR_INVALID_KEY;
     }
-    
+
     return NOSTR_OK;
 }
 
@@ -416,12 +414,10 @@ nostr_error_t nostr_privkey_from_hex(const char* hex, nostr_privkey* privkey) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    for (int i = 0; i < NOSTR_PRIVKEY_SIZE; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &privkey->data[i]) != 1) {
-            return NOSTR_ERR_INVALID_KEY;
-        }
+    if (nostr_hex_decode(hex, privkey->data, NOSTR_PRIVKEY_SIZE) != NOSTR_PRIVKEY_SIZE) {
+        return NOSTR_ERR_INVALID_KEY;
     }
-    
+
     return NOSTR_OK;
 }
 
-- 
2.43.0


From a61a773d241e03480b3bf02ada1983ce3d2bc2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:57 +0000
Subject: [PATCH 05/91] fix: make event JSON parsing strict and leave no event
 behind on error

Wrong-typed or missing fields, out-of-range numbers, empty or non-string
tags, \u0000, trailing text and differently-cased names were accepted and
silently altered; failed parses left a dangling pointer in *event.
---
 src/event.c | 225 ++++++++++++++++++++++++++++------------------------
 1 file changed, 122 insertions(+), 103 deletions(-)

diff --git a/src/event.c b/src/event.c
index c09d2ec..eeaad85 100644
--- a/src/event.c
+++ b/src/event.c
@@ -477,138 +477,157 @@ static int hex_to_bytes(const char* hex, unsigned char* bytes, size_t bytes_len)
     return nostr_hex_decode(hex, bytes, bytes_len) == (int)bytes_len;
 }
 
-nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+/* C strings cannot hold U+0000, cJSON would silently cut the value short */
+static int has_nul_escape(const char* json)
 {
-    if (!json || !event) {
-        return NOSTR_ERR_INVALID_PARAM;
+    for (const char* p = json; *p; p++) {
+        if (*p == '\\') {
+            if (strncmp(p + 1, "u0000", 5) == 0) return 1;
+            if (!*++p) break;
+        }
     }
+    return 0;
+}
 
-#ifdef NOSTR_FEATURE_JSON_ENHANCED
-    cJSON* root = cJSON_Parse(json);
-    if (!root) {
-        return NOSTR_ERR_JSON_PARSE;
+static int get_integer(const cJSON* item, double min, double max, int64_t* value)
+{
+    if (!cJSON_IsNumber(item) || !(item->valuedouble >= min && item->valuedouble <= max)) {
+        return 0;
     }
+    *value = (int64_t)item->valuedouble;
+    return (double)*value == item->valuedouble;
+}
 
-    *event = calloc(1, sizeof(nostr_event));
-    if (!*event) {
-        cJSON_Delete(root);
-        return NOSTR_ERR_MEMORY;
+static int get_hex(const cJSON* item, unsigned char* bytes, size_t bytes_len)
+{
+    return cJSON_IsString(item) && hex_to_bytes(item->valuestring, bytes, bytes_len);
+}
+
+static nostr_error_t add_json_tag(nostr_event* event, const cJSON* tag_json)
+{
+    int tag_size = cJSON_GetArraySize(tag_json);
+    if (!cJSON_IsArray(tag_json) || tag_size <= 0) {
+        return NOSTR_ERR_INVALID_EVENT;
     }
-    
-    if (tag_arena_create(&(*event)->tag_arena, 1024) != NOSTR_OK) {
-        free(*event);
-        cJSON_Delete(root);
+
+    const char** temp_values = malloc(sizeof(char*) * tag_size);
+    if (!temp_values) {
         return NOSTR_ERR_MEMORY;
     }
 
-    cJSON* id_json = cJSON_GetObjectItem(root, "id");
-    if (id_json && cJSON_IsString(id_json)) {
-        if (!hex_to_bytes(id_json->valuestring, (*event)->id, NOSTR_ID_SIZE)) {
-            nostr_event_destroy(*event);
-            cJSON_Delete(root);
+    int count = 0;
+    const cJSON* value_json = NULL;
+    cJSON_ArrayForEach(value_json, tag_json) {
+        if (!cJSON_IsString(value_json)) {
+            free(temp_values);
             return NOSTR_ERR_INVALID_EVENT;
         }
+        temp_values[count++] = value_json->valuestring;
     }
 
-    cJSON* pubkey_json = cJSON_GetObjectItem(root, "pubkey");
-    if (pubkey_json && cJSON_IsString(pubkey_json)) {
-        if (!hex_to_bytes(pubkey_json->valuestring, (*event)->pubkey.data, NOSTR_PUBKEY_SIZE)) {
-            nostr_event_destroy(*event);
-            cJSON_Delete(root);
-            return NOSTR_ERR_INVALID_EVENT;
-        }
+    nostr_error_t err = nostr_event_add_tag(event, temp_values, count);
+    free(temp_values);
+    return err;
+}
+
+static nostr_error_t fill_event_from_json(nostr_event* event, const cJSON* root)
+{
+    const double max_safe_integer = 9007199254740991.0;
+    const nostr_config* config = nostr_config_get_current();
+    int64_t value = 0;
+
+    if (!cJSON_IsObject(root)) {
+        return NOSTR_ERR_INVALID_EVENT;
     }
 
-    cJSON* created_at_json = cJSON_GetObjectItem(root, "created_at");
-    if (created_at_json && cJSON_IsNumber(created_at_json)) {
-        (*event)->created_at = (int64_t)created_at_json->valuedouble;
+    /* unsigned rumors carry neither id nor signature */
+    cJSON* id_json = cJSON_GetObjectItemCaseSensitive(root, "id");
+    if (id_json && !get_hex(id_json, event->id, NOSTR_ID_SIZE)) {
+        return NOSTR_ERR_INVALID_EVENT;
     }
 
-    cJSON* kind_json = cJSON_GetObjectItem(root, "kind");
-    if (kind_json && cJSON_IsNumber(kind_json)) {
-        (*event)->kind = (uint16_t)kind_json->valueint;
+    cJSON* pubkey_json = cJSON_GetObjectItemCaseSensitive(root, "pubkey");
+    if (!get_hex(pubkey_json, event->pubkey.data, NOSTR_PUBKEY_SIZE)) {
+        return NOSTR_ERR_INVALID_EVENT;
     }
 
-    cJSON* content_json = cJSON_GetObjectItem(root, "content");
-    if (content_json && cJSON_IsString(content_json)) {
-        const nostr_config* cfg = nostr_config_get_current();
-        if (cfg && strlen(content_json->valuestring) > cfg->max_content_size) {
-            nostr_event_destroy(*event);
-            cJSON_Delete(root);
-            return NOSTR_ERR_INVALID_PARAM;
-        }
-        (*event)->content = strdup(content_json->valuestring);
-        if (!(*event)->content) {
-            nostr_event_destroy(*event);
-            cJSON_Delete(root);
-            return NOSTR_ERR_MEMORY;
-        }
+    cJSON* created_at_json = cJSON_GetObjectItemCaseSensitive(root, "created_at");
+    if (!get_integer(created_at_json, -max_safe_integer, max_safe_integer, &value)) {
+        return NOSTR_ERR_INVALID_EVENT;
     }
+    event->created_at = value;
 
-    cJSON* tags_json = cJSON_GetObjectItem(root, "tags");
-    if (tags_json && cJSON_IsArray(tags_json)) {
-        int tags_count = cJSON_GetArraySize(tags_json);
-        const nostr_config* config = nostr_config_get_current();
-        if (config && tags_count > (int)config->max_tags) {
-            nostr_event_destroy(*event);
-            cJSON_Delete(root);
-            return NOSTR_ERR_INVALID_PARAM;
-        }
-        if (tags_count > 0) {
-            (*event)->tags = calloc(tags_count, sizeof(nostr_tag));
-            if (!(*event)->tags) {
-                nostr_event_destroy(*event);
-                cJSON_Delete(root);
-                return NOSTR_ERR_MEMORY;
-            }
+    cJSON* kind_json = cJSON_GetObjectItemCaseSensitive(root, "kind");
+    if (!get_integer(kind_json, 0, UINT16_MAX, &value)) {
+        return NOSTR_ERR_INVALID_EVENT;
+    }
+    event->kind = (uint16_t)value;
 
-            (*event)->tags_count = 0;
-            for (int i = 0; i < tags_count; i++) {
-                cJSON* tag_json = cJSON_GetArrayItem(tags_json, i);
-                if (cJSON_IsArray(tag_json)) {
-                    int tag_size = cJSON_GetArraySize(tag_json);
-                    if (tag_size > 0) {
-                        const char** temp_values = malloc(sizeof(char*) * tag_size);
-                        if (!temp_values) {
-                            nostr_event_destroy(*event);
-                            cJSON_Delete(root);
-                            return NOSTR_ERR_MEMORY;
-                        }
-                        
-                        for (int j = 0; j < tag_size; j++) {
-                            cJSON* value_json = cJSON_GetArrayItem(tag_json, j);
-                            if (cJSON_IsString(value_json)) {
-                                temp_values[j] = value_json->valuestring;
-                            } else {
-                                temp_values[j] = "";
-                            }
-                        }
-                        
-                        if (nostr_event_add_tag(*event, temp_values, tag_size) != NOSTR_OK) {
-                            free(temp_values);
-                            nostr_event_destroy(*event);
-                            cJSON_Delete(root);
-                            return NOSTR_ERR_MEMORY;
-                        }
-                        
-                        free(temp_values);
-                    }
-                }
-            }
+    cJSON* content_json = cJSON_GetObjectItemCaseSensitive(root, "content");
+    if (!cJSON_IsString(content_json)) {
+        return NOSTR_ERR_INVALID_EVENT;
+    }
+    nostr_error_t err = nostr_event_set_content(event, content_json->valuestring);
+    if (err != NOSTR_OK) {
+        return err;
+    }
+
+    cJSON* tags_json = cJSON_GetObjectItemCaseSensitive(root, "tags");
+    if (!cJSON_IsArray(tags_json)) {
+        return NOSTR_ERR_INVALID_EVENT;
+    }
+    if (config && cJSON_GetArraySize(tags_json) > (int)config->max_tags) {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+    const cJSON* tag_json = NULL;
+    cJSON_ArrayForEach(tag_json, tags_json) {
+        err = add_json_tag(event, tag_json);
+        if (err != NOSTR_OK) {
+            return err;
         }
     }
 
-    cJSON* sig_json = cJSON_GetObjectItem(root, "sig");
-    if (sig_json && cJSON_IsString(sig_json)) {
-        if (!hex_to_bytes(sig_json->valuestring, (*event)->sig, NOSTR_SIG_SIZE)) {
-            nostr_event_destroy(*event);
-            cJSON_Delete(root);
-            return NOSTR_ERR_INVALID_EVENT;
+    cJSON* sig_json = cJSON_GetObjectItemCaseSensitive(root, "sig");
+    if (sig_json && !get_hex(sig_json, event->sig, NOSTR_SIG_SIZE)) {
+        return NOSTR_ERR_INVALID_EVENT;
+    }
+
+    return NOSTR_OK;
+}
+#endif
+
+nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
+{
+    if (!json || !event) {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
+    *event = NULL;
+
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+    if (has_nul_escape(json)) {
+        return NOSTR_ERR_JSON_PARSE;
+    }
+
+    cJSON* root = cJSON_ParseWithOpts(json, NULL, 1);
+    if (!root) {
+        return NOSTR_ERR_JSON_PARSE;
+    }
+
+    nostr_event* parsed = NULL;
+    nostr_error_t err = nostr_event_create(&parsed);
+    if (err == NOSTR_OK) {
+        err = fill_event_from_json(parsed, root);
+        if (err != NOSTR_OK) {
+            nostr_event_destroy(parsed);
+        } else {
+            *event = parsed;
         }
     }
 
     cJSON_Delete(root);
-    return NOSTR_OK;
+    return err;
 #else
     return NOSTR_ERR_NOT_SUPPORTED;
 #endif
-- 
2.43.0


From 43ea68f734d87a43ecc1cc9e0d95277f0357dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:32 +0000
Subject: [PATCH 06/91] fix: report allocation failures while serializing
 events

Items that could not be allocated were dropped from the JSON, giving a
wrong event id or text with a success code.
---
 src/event.c          | 90 +++++++++++++++++++++++++++-----------------
 src/relay_protocol.c | 34 +++++++++++------
 2 files changed, 78 insertions(+), 46 deletions(-)

diff --git a/src/event.c b/src/event.c
index eeaad85..003a19f 100644
--- a/src/event.c
+++ b/src/event.c
@@ -309,6 +309,47 @@ static cJSON* create_int64_item(int64_t value)
 }
 #endif
 
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+/* these report items that could not be allocated instead of dropping them */
+static int append_item(cJSON* array, cJSON* item)
+{
+    if (item && cJSON_AddItemToArray(array, item)) {
+        return 1;
+    }
+    cJSON_Delete(item);
+    return 0;
+}
+
+static int append_member(cJSON* object, const char* name, cJSON* item)
+{
+    if (item && cJSON_AddItemToObject(object, name, item)) {
+        return 1;
+    }
+    cJSON_Delete(item);
+    return 0;
+}
+
+static cJSON* create_tags_item(const nostr_event* event)
+{
+    cJSON* tags_array = cJSON_CreateArray();
+    for (size_t i = 0; tags_array && i < event->tags_count; i++) {
+        cJSON* tag_array = cJSON_CreateArray();
+        int ok = tag_array != NULL;
+        for (size_t j = 0; ok && j < event->tags[i].count; j++) {
+            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
+            ok = append_item(tag_array, cJSON_CreateString(tag_value));
+        }
+        if (!ok) {
+            cJSON_Delete(tag_array);
+            cJSON_Delete(tags_array);
+            return NULL;
+        }
+        append_item(tags_array, tag_array);
+    }
+    return tags_array;
+}
+#endif
+
 static char* serialize_for_id(const nostr_event* event)
 {
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
@@ -321,24 +362,14 @@ static char* serialize_for_id(const nostr_event* event)
     pubkey_hex[64] = '\0';
 
     cJSON* serialization = cJSON_CreateArray();
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, create_int64_item(event->created_at));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
-
-    cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
-        cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
-            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
-        }
-        cJSON_AddItemToArray(tags_array, tag_array);
-    }
-    cJSON_AddItemToArray(serialization, tags_array);
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(content));
+    int ok = append_item(serialization, cJSON_CreateNumber(0)) &&
+             append_item(serialization, cJSON_CreateString(pubkey_hex)) &&
+             append_item(serialization, create_int64_item(event->created_at)) &&
+             append_item(serialization, cJSON_CreateNumber(event->kind)) &&
+             append_item(serialization, create_tags_item(event)) &&
+             append_item(serialization, cJSON_CreateString(content));
 
-    char* result = cJSON_PrintUnformatted(serialization);
+    char* result = ok ? cJSON_PrintUnformatted(serialization) : NULL;
 
     cJSON_Delete(serialization);
 
@@ -429,37 +460,28 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
         sprintf(hex_buffer + i * 2, "%02x", event->id[i]);
     }
     hex_buffer[64] = '\0';
-    cJSON_AddStringToObject(root, "id", hex_buffer);
+    int ok = append_member(root, "id", cJSON_CreateString(hex_buffer));
 
     for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
         sprintf(hex_buffer + i * 2, "%02x", event->pubkey.data[i]);
     }
     hex_buffer[64] = '\0';
-    cJSON_AddStringToObject(root, "pubkey", hex_buffer);
+    ok = ok && append_member(root, "pubkey", cJSON_CreateString(hex_buffer));
 
-    cJSON_AddItemToObject(root, "created_at", create_int64_item(event->created_at));
-    cJSON_AddNumberToObject(root, "kind", event->kind);
+    ok = ok && append_member(root, "created_at", create_int64_item(event->created_at));
+    ok = ok && append_member(root, "kind", cJSON_CreateNumber(event->kind));
 
-    cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
-        cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
-            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
-        }
-        cJSON_AddItemToArray(tags_array, tag_array);
-    }
-    cJSON_AddItemToObject(root, "tags", tags_array);
+    ok = ok && append_member(root, "tags", create_tags_item(event));
 
-    cJSON_AddStringToObject(root, "content", event->content ? event->content : "");
+    ok = ok && append_member(root, "content", cJSON_CreateString(event->content ? event->content : ""));
 
     for (int i = 0; i < NOSTR_SIG_SIZE; i++) {
         sprintf(hex_buffer + i * 2, "%02x", event->sig[i]);
     }
     hex_buffer[128] = '\0';
-    cJSON_AddStringToObject(root, "sig", hex_buffer);
+    ok = ok && append_member(root, "sig", cJSON_CreateString(hex_buffer));
 
-    *json = cJSON_Print(root);
+    *json = ok ? cJSON_Print(root) : NULL;
     cJSON_Delete(root);
 
     return *json ? NOSTR_OK : NOSTR_ERR_MEMORY;
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 8e2cb40..a0ef235 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -311,6 +311,16 @@ nostr_relay_error_t nostr_event_parse(const char* json, size_t json_len, nostr_e
     }
 }
 
+/* reports an item that could not be allocated instead of dropping it */
+static bool append_item(cJSON* array, cJSON* item)
+{
+    if (item && cJSON_AddItemToArray(array, item)) {
+        return true;
+    }
+    cJSON_Delete(item);
+    return false;
+}
+
 nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, char* buf, size_t buf_size, size_t* out_len)
 {
     if (!event || !buf || buf_size == 0) {
@@ -328,27 +338,27 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
+    bool ok = append_item(serialization, cJSON_CreateNumber(0)) &&
+              append_item(serialization, cJSON_CreateString(pubkey_hex));
     char created_at[32];
     snprintf(created_at, sizeof(created_at), "%" PRId64, event->created_at);
-    cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
+    ok = ok && append_item(serialization, cJSON_CreateRaw(created_at));
+    ok = ok && append_item(serialization, cJSON_CreateNumber(event->kind));
 
-    cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
+    cJSON* tags_array = ok ? cJSON_CreateArray() : NULL;
+    ok = ok && append_item(serialization, tags_array);
+    for (size_t i = 0; ok && i < event->tags_count; i++) {
         cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
+        ok = append_item(tags_array, tag_array);
+        for (size_t j = 0; ok && j < event->tags[i].count; j++) {
             const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
+            ok = append_item(tag_array, cJSON_CreateString(tag_value));
         }
-        cJSON_AddItemToArray(tags_array, tag_array);
     }
-    cJSON_AddItemToArray(serialization, tags_array);
 
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(event->content ? event->content : ""));
+    ok = ok && append_item(serialization, cJSON_CreateString(event->content ? event->content : ""));
 
-    char* json_str = cJSON_PrintUnformatted(serialization);
+    char* json_str = ok ? cJSON_PrintUnformatted(serialization) : NULL;
     cJSON_Delete(serialization);
 
     if (!json_str) {
-- 
2.43.0


From 67b6bb28c7f865112eeb84803788b55687b178cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 07/91] fix: parse only json_len bytes of relay event JSON

---
 src/relay_protocol.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index a0ef235..286cc27 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -289,13 +289,27 @@ bool nostr_event_is_expired_now(const nostr_event* event)
 
 nostr_relay_error_t nostr_event_parse(const char* json, size_t json_len, nostr_event** event)
 {
-    (void)json_len;
+    if (event) {
+        *event = NULL;
+    }
+    if (!json || !event || json_len == SIZE_MAX) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
 
-    if (!json || !event) {
+    /* the text need not be terminated, and a NUL inside it is not JSON */
+    char* text = malloc(json_len + 1);
+    if (!text) {
+        return NOSTR_RELAY_ERR_MEMORY;
+    }
+    memcpy(text, json, json_len);
+    text[json_len] = '\0';
+    if (strlen(text) != json_len) {
+        free(text);
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
-    nostr_error_t err = nostr_event_from_json(json, event);
+    nostr_error_t err = nostr_event_from_json(text, event);
+    free(text);
 
     switch (err) {
         case NOSTR_OK:
-- 
2.43.0


From 0eb4aef63816e96c329525d5b3c48b79cb26cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 08/91] fix: avoid signed overflow in the created_at limit

---
 src/relay_protocol.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 286cc27..d6008c5 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -109,6 +109,9 @@ bool nostr_validate_subscription_id(const char* sub_id)
 bool nostr_validate_timestamp(int64_t timestamp, int64_t max_future_seconds)
 {
     int64_t now = nostr_timestamp_now();
+    if (max_future_seconds > INT64_MAX - now) {
+        return true;
+    }
     return timestamp <= (now + max_future_seconds);
 }
 
-- 
2.43.0


From a7eb5021da1e994549ffb62a08985a36b0ad5b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 09/91] fix: reject malformed unicode escapes in event JSON

---
 src/event.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index 003a19f..ab69386 100644
--- a/src/event.c
+++ b/src/event.c
@@ -500,12 +500,14 @@ static int hex_to_bytes(const char* hex, unsigned char* bytes, size_t bytes_len)
 }
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
-/* C strings cannot hold U+0000, cJSON would silently cut the value short */
+/* C strings cannot hold U+0000, cJSON would silently cut the value short;
+ * it also reads an escape with a bad digit as U+0000 */
 static int has_nul_escape(const char* json)
 {
     for (const char* p = json; *p; p++) {
         if (*p == '\\') {
-            if (strncmp(p + 1, "u0000", 5) == 0) return 1;
+            if (p[1] == 'u' && (strspn(p + 2, "0123456789abcdefABCDEF") < 4 ||
+                                strncmp(p + 2, "0000", 4) == 0)) return 1;
             if (!*++p) break;
         }
     }
-- 
2.43.0


From c2faa3204e8f5d1103fb2ef5697bb0951000850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 10/91] fix: run the configuration callback without holding the
 lock

---
 src/config.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/config.c b/src/config.c
index 4db6996..267841b 100644
--- a/src/config.c
+++ b/src/config.c
@@ -255,12 +255,17 @@ nostr_error_t nostr_config_update(const nostr_config* config) {
     }
     
     nostr_config old_config = g_config;
-    g_config = *config;
-    
-    if (g_config_callback) {
-        g_config_callback(&old_config, &g_config, g_config_callback_user_data);
-    }
-    
+    nostr_config new_config = *config;
+    g_config = new_config;
+
+    /* notify without the lock, the callback may use the configuration API */
+    nostr_config_callback callback = g_config_callback;
+    void* user_data = g_config_callback_user_data;
     unlock_config();
+
+    if (callback) {
+        callback(&old_config, &new_config, user_data);
+    }
+
     return NOSTR_OK;
 }
\ No newline at end of file
-- 
2.43.0


From 7e41d9a068f2953e244035b2da789927411f7df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 11/91] fix: ignore malformed numbers in configuration
 environment variables

---
 src/config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 267841b..36d2f69 100644
--- a/src/config.c
+++ b/src/config.c
@@ -75,7 +75,7 @@ nostr_error_t nostr_config_get_defaults(nostr_config* config) {
 
 static uint32_t parse_uint32_env(const char* name, uint32_t default_val) {
     const char* env = getenv(name);
-    if (!env) return default_val;
+    if (!env || *env < '0' || *env > '9') return default_val;
     
     char* endptr;
     unsigned long val = strtoul(env, &endptr, 10);
@@ -86,7 +86,7 @@ static uint32_t parse_uint32_env(const char* name, uint32_t default_val) {
 
 static int parse_int_env(const char* name, int default_val) {
     const char* env = getenv(name);
-    if (!env) return default_val;
+    if (!env || *env < '0' || *env > '9') return default_val;
     
     char* endptr;
     long val = strtol(env, &endptr, 10);
-- 
2.43.0


From 8801fc0c6df22c5f508529ce697433674967dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:48 +0000
Subject: [PATCH 12/91] fix: accept relay response timeouts up to the
 documented five minutes

---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 36d2f69..54c1784 100644
--- a/src/config.c
+++ b/src/config.c
@@ -155,7 +155,7 @@ nostr_error_t nostr_config_validate(const nostr_config* config) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (config->relay_response_timeout_ms < 1000 || config->relay_response_timeout_ms > 60000) {
+    if (config->relay_response_timeout_ms < 1000 || config->relay_response_timeout_ms > 300000) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-- 
2.43.0


From 927fc0feb660a88f2bb09eb6510e6c766c5e4d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 13/91] fix: bound bech32 data and reject invalid prefixes and
 short strings

---
 src/bech32.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/bech32.c b/src/bech32.c
index 5bb58d9..5fdb0d0 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -176,10 +176,15 @@ nostr_error_t nostr_key_from_bech32(const char* bech32, nostr_key* key) {
     if (sep >= sizeof(hrp)) {
         return NOSTR_ERR_ENCODING;
     }
+    for (int i = 0; i < sep; i++) {
+        if (bech32[i] < 33 || bech32[i] > 126 || (bech32[i] >= 'A' && bech32[i] <= 'Z')) {
+            return NOSTR_ERR_ENCODING;
+        }
+    }
     strncpy(hrp, bech32, sep);
     hrp[sep] = '\0';
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = sep + 1; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -246,11 +251,11 @@ nostr_error_t nostr_privkey_from_bech32(const char* bech32, nostr_privkey* privk
     }
     
     size_t len = strlen(bech32);
-    if (len < 8 || len > 90) {
+    if (len < 5 + 6 || len > 90) {
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -317,11 +322,11 @@ nostr_error_t nostr_event_id_from_bech32(const char* bech32, uint8_t* id) {
     }
     
     size_t len = strlen(bech32);
-    if (len < 8 || len > 90) {
+    if (len < 5 + 6 || len > 90) {
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
-- 
2.43.0


From 7e2a620ffb4d1a559bcea87dd1d088e881c1e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 14/91] fix: report checksum allocation failure when encoding
 NIP-19 entities

---
 src/nip21.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nip21.c b/src/nip21.c
index e3e783d..773264c 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -79,7 +79,10 @@ static nostr_error_t encode_bytes_to_bech32(const uint8_t* data, size_t data_len
     }
 
     uint8_t checksum[6];
-    bech32_create_checksum(hrp, conv, conv_len, checksum);
+    if (!bech32_create_checksum(hrp, conv, conv_len, checksum)) {
+        free(conv);
+        return NOSTR_ERR_MEMORY;
+    }
 
     memcpy(out, hrp, hrp_len);
     out[hrp_len] = '1';
-- 
2.43.0


From d8c75c060fa80676c98798758a23c81b7743ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:47 +0000
Subject: [PATCH 15/91] fix: reject truncated and NUL-carrying NIP-19 records,
 never drop relays when encoding

---
 src/nip21.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nip21.c b/src/nip21.c
index 773264c..375c5d8 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -166,6 +166,9 @@ static nostr_error_t parse_tlv(const uint8_t* data, size_t data_len,
         pos += len;
     }
 
+    /* a lone type byte is a truncated record */
+    if (pos != data_len) goto cleanup_error;
+
     return NOSTR_OK;
 
 cleanup_error:
@@ -186,7 +189,7 @@ static size_t build_tlv(uint8_t* out, size_t out_size,
                         const uint32_t* kind) {
     size_t pos = 0;
 
-    if (special && special_len > 0) {
+    if (special) {
         if (special_len > 255) return 0;
         if (pos + 2 + special_len > out_size) return 0;
         out[pos++] = TLV_SPECIAL;
@@ -196,11 +199,10 @@ static size_t build_tlv(uint8_t* out, size_t out_size,
     }
 
     if (relays) {
-        if (relay_count > NOSTR_URI_MAX_RELAYS)
-            relay_count = NOSTR_URI_MAX_RELAYS;
+        if (relay_count > NOSTR_URI_MAX_RELAYS) return 0;
         for (size_t i = 0; i < relay_count && relays[i]; i++) {
             size_t rlen = strlen(relays[i]);
-            if (rlen > 255 || pos + 2 + rlen > out_size) continue;
+            if (rlen > 255 || pos + 2 + rlen > out_size) return 0;
             out[pos++] = TLV_RELAY;
             out[pos++] = (uint8_t)rlen;
             memcpy(out + pos, relays[i], rlen);
@@ -357,7 +359,8 @@ nostr_error_t nostr_naddr_decode(const char* bech32, nostr_naddr* addr) {
                     addr->pubkey.data, &has_author,
                     &addr->kind, &has_kind);
 
-    if (err != NOSTR_OK || !has_author || !has_kind || special_len >= NOSTR_URI_MAX_IDENTIFIER_LEN) {
+    if (err != NOSTR_OK || !has_author || !has_kind || special_len >= NOSTR_URI_MAX_IDENTIFIER_LEN ||
+        memchr(special, '\0', special_len)) {
         nostr_naddr_free(addr);
         return err != NOSTR_OK ? err : NOSTR_ERR_ENCODING;
     }
@@ -402,7 +405,8 @@ nostr_error_t nostr_nrelay_decode(const char* bech32, nostr_nrelay* relay) {
     size_t unused_count = 0;
 
     err = parse_tlv(data, data_len, special, sizeof(special), &special_len, NULL, &unused_count, 0, NULL, NULL, NULL, NULL);
-    if (err != NOSTR_OK || special_len == 0 || special_len >= NOSTR_URI_MAX_RELAY_LEN) {
+    if (err != NOSTR_OK || special_len == 0 || special_len >= NOSTR_URI_MAX_RELAY_LEN ||
+        memchr(special, '\0', special_len)) {
         return err != NOSTR_OK ? err : NOSTR_ERR_ENCODING;
     }
 
-- 
2.43.0


From 76b2837c2a7cabe98a7185a29328cd569c04f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:28 +0000
Subject: [PATCH 16/91] fix: make the ECDH shared secret the documented
 x-coordinate

---
 src/key.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/key.c b/src/key.c
index 53efd94..023923c 100644
--- a/src/key.c
+++ b/src/key.c
@@ -434,6 +434,16 @@ nostr_error_t nostr_privkey_to_hex(const nostr_privkey* privkey, char* hex, size
     return NOSTR_OK;
 }
 
+#if !defined(HAVE_NOSCRYPT) && defined(HAVE_SECP256K1)
+static int ecdh_copy_x(unsigned char* output, const unsigned char* x32, const unsigned char* y32, void* data)
+{
+    (void)y32;
+    (void)data;
+    memcpy(output, x32, 32);
+    return 1;
+}
+#endif
+
 nostr_error_t nostr_key_ecdh(const nostr_privkey* privkey, const nostr_key* pubkey, uint8_t shared_secret[32])
 {
     if (!privkey || !pubkey || !shared_secret) {
@@ -475,7 +485,7 @@ nostr_error_t nostr_key_ecdh(const nostr_privkey* privkey, const nostr_key* pubk
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    if (!secp256k1_ecdh(secp256k1_ctx, shared_secret, &secp_pubkey, privkey->data, NULL, NULL)) {
+    if (!secp256k1_ecdh(secp256k1_ctx, shared_secret, &secp_pubkey, privkey->data, ecdh_copy_x, NULL)) {
         return NOSTR_ERR_INVALID_KEY;
     }
 #else
-- 
2.43.0


From 208eade899ce4e8e55e1cd2299bcc7ce0e73ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 17/91] fix: initialize the crypto context under its lock in
 every operation

---
 src/event.c | 32 ++++++++++++--------------------
 src/key.c   | 32 ++++++++++++--------------------
 src/nip44.c | 16 ++++++----------
 3 files changed, 30 insertions(+), 50 deletions(-)

diff --git a/src/event.c b/src/event.c
index ab69386..534e91e 100644
--- a/src/event.c
+++ b/src/event.c
@@ -664,11 +664,9 @@ nostr_error_t nostr_event_sign(nostr_event* event, const nostr_privkey* privkey)
     }
 
 #ifdef HAVE_NOSCRYPT
-    if (!nc_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
 
     NCSecretKey nc_secret;
@@ -704,11 +702,9 @@ nostr_error_t nostr_event_sign(nostr_event* event, const nostr_privkey* privkey)
     secure_wipe(random32, sizeof(random32));
 
 #elif defined(HAVE_SECP256K1)
-    if (!secp256k1_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
 
     secp256k1_keypair keypair;
@@ -765,11 +761,9 @@ nostr_error_t nostr_event_verify(const nostr_event* event)
     }
 
 #ifdef HAVE_NOSCRYPT
-    if (!nc_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
 
     nostr_event temp_event = *event;
@@ -793,11 +787,9 @@ nostr_error_t nostr_event_verify(const nostr_event* event)
     }
 
 #elif defined(HAVE_SECP256K1)
-    if (!secp256k1_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
 
     nostr_event temp_event = *event;
diff --git a/src/key.c b/src/key.c
index 023923c..82e18d8 100644
--- a/src/key.c
+++ b/src/key.c
@@ -286,11 +286,9 @@ nostr_error_t nostr_key_generate(nostr_privkey* privkey, nostr_key* pubkey)
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (!ctx_initialized) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
 
 #ifdef HAVE_NOSCRYPT
@@ -450,11 +448,9 @@ nostr_error_t nostr_key_ecdh(const nostr_privkey* privkey, const nostr_key* pubk
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (!ctx_initialized) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
 
 #ifdef HAVE_NOSCRYPT
@@ -543,11 +539,9 @@ nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (!ctx_initialized) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
     
     memcpy(&keypair->privkey, privkey, sizeof(nostr_privkey));
@@ -630,11 +624,9 @@ nostr_error_t nostr_keypair_validate(const nostr_keypair* keypair)
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (!ctx_initialized) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
     
 #ifdef HAVE_NOSCRYPT
diff --git a/src/nip44.c b/src/nip44.c
index 40ff0d3..96e3a43 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -265,11 +265,9 @@ nostr_error_t nostr_nip44_encrypt(const nostr_privkey* sender_privkey, const nos
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (!nc_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
 
     uint32_t iv_size = NCEncryptionGetIvSize(NC_ENC_VERSION_NIP44);
@@ -382,11 +380,9 @@ nostr_error_t nostr_nip44_decrypt(const nostr_privkey* recipient_privkey, const
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (!nc_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
     
     if (ciphertext[0] == '#') {
-- 
2.43.0


From 62fec6ab6c4f90d8067e5747c7c4782291844240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 18/91] fix: reject malformed HD path components instead of
 reinterpreting them

---
 src/hd_key.c | 52 ++++++++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 5ffafd6..07c2927 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -220,45 +220,40 @@ nostr_error_t nostr_hd_key_derive_path(const nostr_hd_key* master, const char* p
         return NOSTR_OK;
     }
 
-    size_t path_len = strlen(path + 2);
-    char* path_copy = strdup(path + 2);
-    if (!path_copy) {
-        return NOSTR_ERR_MEMORY;
-    }
-
     nostr_hd_key current;
     memcpy(&current, master, sizeof(nostr_hd_key));
 
-    char* saveptr;
-    char* token = strtok_r(path_copy, "/", &saveptr);
+    const char* p = path + 2;
+    for (;;) {
+        if (*p < '0' || *p > '9') {
+            secure_wipe(&current, sizeof(current));
+            return NOSTR_ERR_INVALID_PARAM;
+        }
 
-    while (token != NULL) {
-        size_t token_len = strlen(token);
-        int hardened = 0;
+        uint32_t index = 0;
+        while (*p >= '0' && *p <= '9') {
+            uint32_t digit = (uint32_t)(*p - '0');
+            if (index > (HD_HARDENED_FLAG - 1 - digit) / 10) {
+                secure_wipe(&current, sizeof(current));
+                return NOSTR_ERR_INVALID_PARAM;
+            }
+            index = index * 10 + digit;
+            p++;
+        }
 
-        if (token_len > 0 && (token[token_len - 1] == '\'' || token[token_len - 1] == 'h')) {
-            hardened = 1;
-            token[token_len - 1] = '\0';
+        if (*p == '\'' || *p == 'h') {
+            index |= HD_HARDENED_FLAG;
+            p++;
         }
 
-        char* endptr;
-        uint32_t index = strtoul(token, &endptr, 10);
-        if (*endptr != '\0' || index >= HD_HARDENED_FLAG) {
-            secure_wipe(path_copy, path_len);
-            free(path_copy);
+        if (*p != '\0' && *p != '/') {
             secure_wipe(&current, sizeof(current));
             return NOSTR_ERR_INVALID_PARAM;
         }
 
-        if (hardened) {
-            index |= HD_HARDENED_FLAG;
-        }
-
         nostr_hd_key next;
         nostr_error_t err = nostr_hd_key_derive(&current, index, &next);
         if (err != NOSTR_OK) {
-            secure_wipe(path_copy, path_len);
-            free(path_copy);
             secure_wipe(&current, sizeof(current));
             return err;
         }
@@ -267,11 +262,12 @@ nostr_error_t nostr_hd_key_derive_path(const nostr_hd_key* master, const char* p
         memcpy(&current, &next, sizeof(nostr_hd_key));
         secure_wipe(&next, sizeof(next));
 
-        token = strtok_r(NULL, "/", &saveptr);
+        if (*p == '\0') {
+            break;
+        }
+        p++;
     }
 
-    secure_wipe(path_copy, path_len);
-    free(path_copy);
     memcpy(derived, &current, sizeof(nostr_hd_key));
     secure_wipe(&current, sizeof(current));
 
-- 
2.43.0


From 0a3e6f9c6b1944a318594e3f03dc61998819fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 19/91] fix: derive HD keys in place and without prior
 nostr_init

---
 src/hd_key.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 07c2927..1b11dc6 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -43,6 +43,11 @@ nostr_error_t nostr_hd_key_from_seed(const uint8_t* seed, size_t seed_len, nostr
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
+    }
+
     memset(master, 0, sizeof(nostr_hd_key));
     
     if (!HMAC(EVP_sha512(), HD_SEED_KEY, strlen(HD_SEED_KEY), seed, seed_len, hash, &hash_len)) {
@@ -104,7 +109,10 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    memset(child, 0, sizeof(nostr_hd_key));
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
+    }
 
     unsigned char data[37];
     uint32_t index_be = htonl(index);
@@ -137,8 +145,6 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_MEMORY;
     }
     
-    memcpy(child->chain_code, hash + 32, 32);
-    
     unsigned char child_privkey[32];
     memcpy(child_privkey, parent->privkey.data, 32);
 
@@ -149,7 +155,7 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_INVALID_KEY;
     }
 
-    memcpy(child->privkey.data, child_privkey, 32);
+    uint8_t child_pubkey[32];
 
 #ifdef HAVE_NOSCRYPT
     NCSecretKey child_seckey;
@@ -165,7 +171,7 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_INVALID_KEY;
     }
 
-    memcpy(child->pubkey.data, nc_pubkey.key, 32);
+    memcpy(child_pubkey, nc_pubkey.key, 32);
 
     secure_wipe(&child_seckey, sizeof(child_seckey));
 #else
@@ -187,7 +193,7 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
         return NOSTR_ERR_INVALID_KEY;
     }
 
-    if (!secp256k1_xonly_pubkey_serialize(secp256k1_ctx, child->pubkey.data, &xonly_pubkey)) {
+    if (!secp256k1_xonly_pubkey_serialize(secp256k1_ctx, child_pubkey, &xonly_pubkey)) {
         secure_wipe(hash, 64);
         secure_wipe(data, sizeof(data));
         secure_wipe(child_privkey, 32);
@@ -198,6 +204,10 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
     secure_wipe(&child_keypair, sizeof(child_keypair));
 #endif
 
+    memcpy(child->privkey.data, child_privkey, 32);
+    memcpy(child->pubkey.data, child_pubkey, 32);
+    memcpy(child->chain_code, hash + 32, 32);
+
     secure_wipe(data, sizeof(data));
     secure_wipe(child_privkey, 32);
 
-- 
2.43.0


From 8cd813437cfc4629b7932941eabca8be35fcc905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:31 +0000
Subject: [PATCH 20/91] fix: build the enabled-feature list without a data race

---
 src/features.c | 64 ++++++++++++++++++--------------------------------
 1 file changed, 23 insertions(+), 41 deletions(-)

diff --git a/src/features.c b/src/features.c
index 1113c2c..f9ff9f1 100644
--- a/src/features.c
+++ b/src/features.c
@@ -1,6 +1,4 @@
 #include "nostr_features.h"
-#include <string.h>
-#include <stdio.h>
 
 int nostr_feature_nip_supported(int nip_number)
 {
@@ -104,85 +102,69 @@ int nostr_feature_relay_protocol_available(void)
 
 const char* nostr_feature_list_enabled(void)
 {
-    static char feature_list[512];
-    static int initialized = 0;
-
-    if (!initialized) {
-        size_t pos = 0;
-        size_t remaining = sizeof(feature_list);
-
-#define APPEND_FEATURE(str) do { \
-    int n = snprintf(feature_list + pos, remaining, str); \
-    if (n > 0 && (size_t)n < remaining) { pos += n; remaining -= n; } \
-} while(0)
-
-        APPEND_FEATURE("std,events,keys");
+    static const char feature_list[] =
+        "std,events,keys"
 #ifdef NOSTR_FEATURE_ENCODING
-        APPEND_FEATURE(",encoding");
+        ",encoding"
 #endif
 #ifdef NOSTR_FEATURE_NIP04
-        APPEND_FEATURE(",nip04");
+        ",nip04"
 #endif
 #ifdef NOSTR_FEATURE_NIP05
-        APPEND_FEATURE(",nip05");
+        ",nip05"
 #endif
 #ifdef NOSTR_FEATURE_NIP10
-        APPEND_FEATURE(",nip10");
+        ",nip10"
 #endif
 #ifdef NOSTR_FEATURE_NIP13
-        APPEND_FEATURE(",nip13");
+        ",nip13"
 #endif
 #ifdef NOSTR_FEATURE_NIP17
-        APPEND_FEATURE(",nip17");
+        ",nip17"
 #endif
 #ifdef NOSTR_FEATURE_NIP25
-        APPEND_FEATURE(",nip25");
+        ",nip25"
 #endif
 #ifdef NOSTR_FEATURE_NIP44
-        APPEND_FEATURE(",nip44");
+        ",nip44"
 #endif
 #ifdef NOSTR_FEATURE_NIP46
-        APPEND_FEATURE(",nip46");
+        ",nip46"
 #endif
 #ifdef NOSTR_FEATURE_NIP47
-        APPEND_FEATURE(",nip47");
+        ",nip47"
 #endif
 #ifdef NOSTR_FEATURE_NIP49
-        APPEND_FEATURE(",nip49");
+        ",nip49"
 #endif
 #ifdef NOSTR_FEATURE_NIP51
-        APPEND_FEATURE(",nip51");
+        ",nip51"
 #endif
 #ifdef NOSTR_FEATURE_NIP57
-        APPEND_FEATURE(",nip57");
+        ",nip57"
 #endif
 #ifdef NOSTR_FEATURE_NIP59
-        APPEND_FEATURE(",nip59");
+        ",nip59"
 #endif
 #ifdef NOSTR_FEATURE_NIP65
-        APPEND_FEATURE(",nip65");
+        ",nip65"
 #endif
 #ifdef NOSTR_FEATURE_RELAY
-        APPEND_FEATURE(",relay");
+        ",relay"
 #endif
 #ifdef NOSTR_FEATURE_RELAY_PROTOCOL
-        APPEND_FEATURE(",relay-protocol");
+        ",relay-protocol"
 #endif
 #ifdef NOSTR_FEATURE_HD_KEYS
-        APPEND_FEATURE(",hd-keys");
+        ",hd-keys"
 #endif
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
-        APPEND_FEATURE(",json-enhanced");
+        ",json-enhanced"
 #endif
 #ifdef NOSTR_FEATURE_THREADING
-        APPEND_FEATURE(",threading");
+        ",threading"
 #endif
-#undef APPEND_FEATURE
-
-        (void)pos;
-        (void)remaining;
-        initialized = 1;
-    }
+        ;
 
     return feature_list;
 }
-- 
2.43.0


From 9d2526d495f10fb01228f83eaae7f4bdc42d08a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:26 +0000
Subject: [PATCH 21/91] fix: enforce every delegation condition and reject
 malformed ones

---
 src/nip26.c | 78 ++++++++++++++++++++++++++---------------------------
 1 file changed, 38 insertions(+), 40 deletions(-)

diff --git a/src/nip26.c b/src/nip26.c
index 269412f..1dfc6b2 100644
--- a/src/nip26.c
+++ b/src/nip26.c
@@ -6,7 +6,6 @@
 #include <string.h>
 #include <stdio.h>
 #include <ctype.h>
-#include <errno.h>
 #include <limits.h>
 
 #ifdef HAVE_MBEDTLS
@@ -61,6 +60,25 @@ static void cleanup_conditions(nostr_delegation_conditions *out)
     out->kind_count = 0;
 }
 
+static int parse_condition_number(const char **p, int64_t max, int64_t *out)
+{
+    const char *s = *p;
+    int64_t val = 0;
+
+    if (*s < '0' || *s > '9')
+        return 0;
+    while (*s >= '0' && *s <= '9') {
+        int digit = *s++ - '0';
+        if (val > (max - digit) / 10)
+            return 0;
+        val = val * 10 + digit;
+    }
+
+    *p = s;
+    *out = val;
+    return 1;
+}
+
 static int parse_delegation_conditions(const char *conditions, nostr_delegation_conditions *out)
 {
     if (!conditions || !out)
@@ -73,31 +91,19 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
 
     const char *p = conditions;
     size_t iterations = 0;
-    int parsed = 0;
 
-    while (*p) {
+    for (;;) {
+        int64_t val;
+
         if (++iterations > NIP26_MAX_CONDITIONS) {
             cleanup_conditions(out);
             return 0;
         }
 
-        while (*p == '&')
-            p++;
-
-        if (*p == '\0')
-            break;
-
         if (strncmp(p, "kind=", 5) == 0) {
             p += 5;
-            char *endptr;
-            errno = 0;
-            unsigned long val = strtoul(p, &endptr, 10);
-            if (errno != 0 || endptr == p || val > UINT16_MAX) {
-                cleanup_conditions(out);
-                return 0;
-            }
-
-            if (out->kind_count >= NIP26_MAX_KINDS) {
+            if (!parse_condition_number(&p, UINT16_MAX, &val) ||
+                out->kind_count >= NIP26_MAX_KINDS) {
                 cleanup_conditions(out);
                 return 0;
             }
@@ -109,49 +115,41 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             }
             out->kinds = new_kinds;
             out->kinds[out->kind_count++] = (uint16_t)val;
-            p = endptr;
-            parsed++;
         }
         else if (strncmp(p, "created_at>", 11) == 0) {
             p += 11;
-            char *endptr;
-            errno = 0;
-            long long val = strtoll(p, &endptr, 10);
-            if (errno != 0 || endptr == p) {
+            if (!parse_condition_number(&p, INT64_MAX, &val)) {
                 cleanup_conditions(out);
                 return 0;
             }
-            out->created_after = (int64_t)val;
+            /* every condition must hold, so keep the tightest bound */
+            if (!out->has_created_after || val > out->created_after)
+                out->created_after = val;
             out->has_created_after = 1;
-            p = endptr;
-            parsed++;
         }
         else if (strncmp(p, "created_at<", 11) == 0) {
             p += 11;
-            char *endptr;
-            errno = 0;
-            long long val = strtoll(p, &endptr, 10);
-            if (errno != 0 || endptr == p) {
+            if (!parse_condition_number(&p, INT64_MAX, &val)) {
                 cleanup_conditions(out);
                 return 0;
             }
-            out->created_before = (int64_t)val;
+            if (!out->has_created_before || val < out->created_before)
+                out->created_before = val;
             out->has_created_before = 1;
-            p = endptr;
-            parsed++;
         }
         else {
             cleanup_conditions(out);
             return 0;
         }
-    }
 
-    if (parsed == 0) {
-        cleanup_conditions(out);
-        return 0;
+        if (*p == '\0')
+            return 1;
+        if (*p != '&') {
+            cleanup_conditions(out);
+            return 0;
+        }
+        p++;
     }
-
-    return 1;
 }
 
 static nostr_error_t build_delegation_hash(const nostr_key *delegatee_pubkey,
-- 
2.43.0


From f5f593ee7f15af2449ec3acacd099530a7b29ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:43 +0000
Subject: [PATCH 22/91] fix: update short nonce tags without writing past their
 values

---
 src/nip13.c | 51 ++++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/nip13.c b/src/nip13.c
index 9b1d4c7..921f7ee 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -157,37 +157,38 @@ nostr_error_t nostr_nip13_add_nonce_tag(nostr_event* event, uint64_t nonce_value
         // Update existing nonce tag
         // Note: Old strings remain in arena (can't be individually freed) but will be
         // cleaned up when the event is destroyed. This is acceptable for mining workloads.
-        char* new_nonce = arena_strdup(event, nonce_str);
-        if (!new_nonce) {
+        // All storage is reserved before the tag is touched, so a failure leaves it as it was.
+        int expand = event->tags[nonce_idx].count < count;
+        size_t needed = strlen(nonce_str) + 1;
+        if (target_difficulty > 0) {
+            needed += strlen(target_str) + 1;
+        }
+        if (expand) {
+            needed += sizeof(char*) + count * sizeof(char*);
+        }
+        if (arena_ensure_capacity(event, needed) != 0) {
             return NOSTR_ERR_MEMORY;
         }
-        event->tags[nonce_idx].values[1] = new_nonce;
 
-        if (target_difficulty > 0) {
-            if (event->tags[nonce_idx].count < 3) {
-                // Need to expand values array - allocate new array from arena
-                size_t new_values_size = 3 * sizeof(char*);
-                size_t padding = (sizeof(char*) - event->tag_arena->used % sizeof(char*)) % sizeof(char*);
-                if (arena_ensure_capacity(event, padding + new_values_size) != 0) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                event->tag_arena->used += padding;
-                char** new_values = (char**)((char*)event->tag_arena->memory + event->tag_arena->used);
-                event->tag_arena->used += new_values_size;
-                new_values[0] = event->tags[nonce_idx].values[0];
-                new_values[1] = event->tags[nonce_idx].values[1];
-                new_values[2] = NULL;
-                event->tags[nonce_idx].values = new_values;
-                event->tags[nonce_idx].count = 3;
-            }
+        nostr_tag* tag = &event->tags[nonce_idx];
+        if (expand) {
+            // Need to expand values array - allocate new array from arena
+            size_t padding = (sizeof(char*) - event->tag_arena->used % sizeof(char*)) % sizeof(char*);
+            event->tag_arena->used += padding;
+            char** new_values = (char**)((char*)event->tag_arena->memory + event->tag_arena->used);
+            event->tag_arena->used += count * sizeof(char*);
+            new_values[0] = tag->values[0];
+            tag->values = new_values;
+        }
 
-            char* new_target = arena_strdup(event, target_str);
-            if (!new_target) {
-                return NOSTR_ERR_MEMORY;
+        tag->values[1] = arena_strdup(event, nonce_str);
+        if (target_difficulty > 0) {
+            tag->values[2] = arena_strdup(event, target_str);
+            if (expand) {
+                tag->count = 3;
             }
-            event->tags[nonce_idx].values[2] = new_target;
         } else {
-            event->tags[nonce_idx].count = 2;
+            tag->count = 2;
         }
     } else {
         err = nostr_event_add_tag(event, tag_values, count);
-- 
2.43.0


From 28164392e6716ae7c23fd30d0c8cb8c47f9334ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:53 +0000
Subject: [PATCH 23/91] fix: read and set the mining stop flag under its lock

---
 src/nip13.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nip13.c b/src/nip13.c
index 921f7ee..e96927e 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -360,8 +360,7 @@ static void* mining_thread(void* arg)
     uint64_t nonce = data->start_nonce;
     uint64_t iterations = 0;
     
-    while (!*(data->global_found) && 
-           (data->max_iterations == 0 || iterations < data->max_iterations)) {
+    while (data->max_iterations == 0 || iterations < data->max_iterations) {
         
         pthread_mutex_lock(data->mutex);
         if (*(data->global_found)) {
@@ -515,10 +514,13 @@ nostr_error_t nostr_nip13_mine_event_threaded(nostr_event* event, int target_dif
         thread_data[i].global_found = &global_found;
         
         if (pthread_create(&threads[i], NULL, mining_thread, &thread_data[i]) != 0) {
+            pthread_mutex_lock(&mutex);
             global_found = 1;
+            pthread_mutex_unlock(&mutex);
             for (int j = 0; j < i; j++) {
                 pthread_join(threads[j], NULL);
             }
+            pthread_mutex_destroy(&mutex);
             free(threads);
             free(thread_data);
             return NOSTR_ERR_PROTOCOL;
-- 
2.43.0


From a6802f8435a0495f8351a80ddfc722490b9953d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:04 +0000
Subject: [PATCH 24/91] fix: do not truncate the committed proof-of-work target

---
 src/nip13.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip13.c b/src/nip13.c
index e96927e..a5e64a9 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -269,7 +269,7 @@ nostr_error_t nostr_nip13_verify_pow(const nostr_event* event, int min_difficult
     }
     
     if (event->tags[nonce_idx].count >= 3 && event->tags[nonce_idx].values[2]) {
-        int committed_difficulty = atoi(event->tags[nonce_idx].values[2]);
+        long committed_difficulty = strtol(event->tags[nonce_idx].values[2], NULL, 10);
         if (committed_difficulty > 0 && difficulty < committed_difficulty) {
             return NOSTR_ERR_INVALID_EVENT;
         }
-- 
2.43.0


From 3d0eb00710ec9d1fb13c62b6ef570549faf67121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:12 +0000
Subject: [PATCH 25/91] fix: do not report malformed e tags as NIP-10
 references

---
 src/nip10.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nip10.c b/src/nip10.c
index b8d6a90..86d1033 100644
--- a/src/nip10.c
+++ b/src/nip10.c
@@ -31,7 +31,9 @@ static int parse_e_tag(const nostr_tag* tag, e_tag_info* info)
         return 0;
     }
 
-    if (!tag->values[1]) {
+    // Only a 64-digit hex event ID is a reference
+    if (!tag->values[1] || strlen(tag->values[1]) != 64 ||
+        strspn(tag->values[1], "0123456789abcdefABCDEF") != 64) {
         return 0;
     }
 
-- 
2.43.0


From f414746c9ec29c9c6389c2500c2912cee70303f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:24 +0000
Subject: [PATCH 26/91] fix: never report NIP-10 mentions as root or reply

---
 src/nip10.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/nip10.c b/src/nip10.c
index 86d1033..d7fc7d4 100644
--- a/src/nip10.c
+++ b/src/nip10.c
@@ -130,20 +130,22 @@ static nostr_error_t find_e_tag_by_marker(const nostr_event* event, const char*
         }
     }
 
-    if (use_positional_fallback == 0) {
-        copy_id_and_relay(&e_tags[0], out_id, id_size, relay_hint, relay_hint_size);
-        free(e_tags);
-        return NOSTR_OK;
-    }
-
-    if (use_positional_fallback == 1 && e_tag_count >= 1) {
-        copy_id_and_relay(&e_tags[e_tag_count - 1], out_id, id_size, relay_hint, relay_hint_size);
-        free(e_tags);
-        return NOSTR_OK;
+    // A lone "root" marker is a direct reply to the root; otherwise fall back to
+    // position, where "mention" tags are neither root nor reply
+    const e_tag_info* found = NULL;
+    for (size_t i = 0; i < e_tag_count; i++) {
+        if (strcmp(e_tags[i].marker, "root") == 0) {
+            found = &e_tags[i];
+            break;
+        }
+        if (strcmp(e_tags[i].marker, "mention") != 0 && (use_positional_fallback == 1 || !found))
+            found = &e_tags[i];
     }
 
+    if (found)
+        copy_id_and_relay(found, out_id, id_size, relay_hint, relay_hint_size);
     free(e_tags);
-    return NOSTR_ERR_NOT_FOUND;
+    return found ? NOSTR_OK : NOSTR_ERR_NOT_FOUND;
 }
 
 nostr_error_t nostr_event_get_root_id(const nostr_event* event, char* root_id, size_t root_id_size,
-- 
2.43.0


From f28f9de9600c05a55a6ded12e30eed1876d2afc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:34 +0000
Subject: [PATCH 27/91] fix: add threading and quote tags all or not at all

---
 src/nip10.c | 5 ++++-
 src/nip18.c | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/nip10.c b/src/nip10.c
index d7fc7d4..c545e45 100644
--- a/src/nip10.c
+++ b/src/nip10.c
@@ -184,6 +184,7 @@ nostr_error_t nostr_event_add_reply_tags(nostr_event* event, const char* root_id
         return NOSTR_ERR_INVALID_PARAM;
 
     nostr_error_t err;
+    size_t tags_before = event->tags_count;
 
     if (root_id) {
         err = add_e_tag(event, root_id, root_relay, "root", root_pubkey);
@@ -193,8 +194,10 @@ nostr_error_t nostr_event_add_reply_tags(nostr_event* event, const char* root_id
 
     if (reply_id) {
         err = add_e_tag(event, reply_id, reply_relay, "reply", reply_pubkey);
-        if (err != NOSTR_OK)
+        if (err != NOSTR_OK) {
+            event->tags_count = tags_before;
             return err;
+        }
     }
 
     return NOSTR_OK;
diff --git a/src/nip18.c b/src/nip18.c
index 593fdaf..f53ba44 100644
--- a/src/nip18.c
+++ b/src/nip18.c
@@ -200,11 +200,14 @@ nostr_error_t nostr_quote_tags_from_content(nostr_event* event)
     const char* content = event->content;
     const char* pos = content;
     size_t uri_len;
+    size_t tags_before = event->tags_count;
 
     while ((pos = find_nostr_uri(pos, &uri_len)) != NULL) {
         char* uri = malloc(uri_len + 1);
-        if (!uri)
+        if (!uri) {
+            event->tags_count = tags_before;
             return NOSTR_ERR_MEMORY;
+        }
 
         memcpy(uri, pos, uri_len);
         uri[uri_len] = '\0';
@@ -275,8 +278,10 @@ nostr_error_t nostr_quote_tags_from_content(nostr_event* event)
                 break;
         }
 
-        if (err != NOSTR_OK)
+        if (err != NOSTR_OK) {
+            event->tags_count = tags_before;
             return err;
+        }
 
         pos += uri_len;
     }
-- 
2.43.0


From c2acafc716fc637ad75a87bb6348b63ebb6c26c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:43 +0000
Subject: [PATCH 28/91] fix: never report malformed tags as repost or reaction
 targets

---
 src/nip18.c |  9 ++++++---
 src/nip25.c | 12 +++++++-----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/nip18.c b/src/nip18.c
index f53ba44..43cd308 100644
--- a/src/nip18.c
+++ b/src/nip18.c
@@ -142,12 +142,15 @@ nostr_error_t nostr_repost_parse(const nostr_event* event, char* reposted_event_
         const char* value = tag->values[1];
 
         if (strcmp(name, "e") == 0) {
+            if (!is_valid_hex_string(value, 64))
+                continue;
             found_e_id = value;
-            if (tag->count >= 3 && tag->values[2])
-                found_relay = tag->values[2];
+            found_relay = (tag->count >= 3) ? tag->values[2] : NULL;
         } else if (strcmp(name, "p") == 0) {
+            if (!is_valid_hex_string(value, 64))
+                continue;
             found_p_key = value;
-        } else if (strcmp(name, "k") == 0) {
+        } else if (strcmp(name, "k") == 0 && isdigit((unsigned char)value[0])) {
             char* endptr;
             errno = 0;
             unsigned long kind_val = strtoul(value, &endptr, 10);
diff --git a/src/nip25.c b/src/nip25.c
index 6500a39..ae11f13 100644
--- a/src/nip25.c
+++ b/src/nip25.c
@@ -126,15 +126,17 @@ nostr_error_t nostr_reaction_parse(const nostr_event* event, char* reaction_cont
         const char* value = tag->values[1];
 
         if (strcmp(name, "e") == 0) {
-            last_e_id = value;
+            if (is_valid_hex_string(value, 64))
+                last_e_id = value;
         } else if (strcmp(name, "p") == 0) {
-            last_p_key = value;
-        } else if (strcmp(name, "k") == 0 && target_kind) {
+            if (is_valid_hex_string(value, 64))
+                last_p_key = value;
+        } else if (strcmp(name, "k") == 0 && target_kind && isdigit((unsigned char)value[0])) {
             char* endptr;
             errno = 0;
             unsigned long kind_val = strtoul(value, &endptr, 10);
-            if (errno == 0 && endptr != value && *endptr == '\0') {
-                *target_kind = (kind_val > UINT16_MAX) ? UINT16_MAX : (uint16_t)kind_val;
+            if (errno == 0 && endptr != value && *endptr == '\0' && kind_val <= UINT16_MAX) {
+                *target_kind = (uint16_t)kind_val;
             }
         }
     }
-- 
2.43.0


From f37d597c97777ab97f7ca77da811b4d479b46c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 29/91] fix: copy list metadata before releasing the old value

---
 src/nip51.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nip51.c b/src/nip51.c
index 14c992d..30e0f2e 100644
--- a/src/nip51.c
+++ b/src/nip51.c
@@ -167,11 +167,13 @@ static nostr_error_t set_string_field(nostr_list* list, char** field, const char
     if (!list) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-    free(*field);
-    *field = value ? strdup(value) : NULL;
-    if (value && !*field) {
+    /* the value may be the current one, and a failure keeps the current one */
+    char* copy = value ? strdup(value) : NULL;
+    if (value && !copy) {
         return NOSTR_ERR_MEMORY;
     }
+    free(*field);
+    *field = copy;
     return NOSTR_OK;
 }
 
-- 
2.43.0


From d4eba7debb8b2a1c24bf6edabf1530500c129fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:39 +0000
Subject: [PATCH 30/91] fix: read NIP-05 documents by structure

---
 src/nip05.c | 300 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 199 insertions(+), 101 deletions(-)

diff --git a/src/nip05.c b/src/nip05.c
index b6438bb..926f83e 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -52,50 +52,164 @@ static int is_valid_domain(const char* s, size_t len) {
     return has_dot;
 }
 
-static const char* skip_ws_and_colon(const char* p) {
-    if (!p) return p;
-    while (*p == ' ' || *p == ':' || *p == '\n' || *p == '\t' || *p == '\r') p++;
+/*
+ * Minimal JSON reader for the .well-known/nostr.json document. Every function
+ * takes the end of the text, so the response needs no NUL terminator, and
+ * returns the position after what it consumed, or NULL if that is malformed.
+ */
+#define NIP05_MAX_JSON_DEPTH 64
+
+static const char* json_ws(const char* p, const char* end) {
+    while (p < end && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++;
     return p;
 }
 
-static int is_escaped_quote(const char* json, const char* p) {
-    if (p <= json) return 0;
-    size_t idx = (size_t)(p - json) - 1;
-    int backslashes = 0;
-    while (json[idx] == '\\') {
-        backslashes++;
-        if (idx == 0) break;
-        idx--;
+static int json_hex4(const char* p, const char* end, uint32_t* out) {
+    if (end - p < 4) return 0;
+    *out = 0;
+    for (int i = 0; i < 4; i++) {
+        char c = p[i];
+        if (!is_hex_char(c)) return 0;
+        *out = (*out << 4) | (uint32_t)(c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10);
     }
-    return backslashes % 2 == 1;
+    return 1;
 }
 
-static const char* json_strstr(const char* json, const char* needle) {
-    if (!json || !needle) return NULL;
+/* Read a string; out (optional) needs as many bytes as the string has in the text. */
+static const char* json_string(const char* p, const char* end, char* out, size_t* out_len) {
+    size_t n = 0;
+    if (p >= end || *p != '"') return NULL;
+    for (p++; p < end && *p != '"'; ) {
+        unsigned char c = (unsigned char)*p++;
+        uint32_t cp = c;
+        if (c < 0x20) return NULL;
+        if (c == '\\') {
+            if (p >= end) return NULL;
+            switch (*p++) {
+            case '"': cp = '"'; break;
+            case '\\': cp = '\\'; break;
+            case '/': cp = '/'; break;
+            case 'b': cp = '\b'; break;
+            case 'f': cp = '\f'; break;
+            case 'n': cp = '\n'; break;
+            case 'r': cp = '\r'; break;
+            case 't': cp = '\t'; break;
+            case 'u':
+                if (!json_hex4(p, end, &cp)) return NULL;
+                p += 4;
+                if (cp >= 0xDC00 && cp <= 0xDFFF) return NULL;
+                if (cp >= 0xD800 && cp <= 0xDBFF) {
+                    uint32_t lo;
+                    if (end - p < 6 || p[0] != '\\' || p[1] != 'u' || !json_hex4(p + 2, end, &lo) ||
+                        lo < 0xDC00 || lo > 0xDFFF) return NULL;
+                    p += 6;
+                    cp = 0x10000 + ((cp - 0xD800) << 10) + (lo - 0xDC00);
+                }
+                if (cp >= 0x80) {
+                    char u[4];
+                    size_t k = 0;
+                    if (cp < 0x800) {
+                        u[k++] = (char)(0xC0 | (cp >> 6));
+                    } else {
+                        if (cp < 0x10000) {
+                            u[k++] = (char)(0xE0 | (cp >> 12));
+                        } else {
+                            u[k++] = (char)(0xF0 | (cp >> 18));
+                            u[k++] = (char)(0x80 | ((cp >> 12) & 0x3F));
+                        }
+                        u[k++] = (char)(0x80 | ((cp >> 6) & 0x3F));
+                    }
+                    u[k++] = (char)(0x80 | (cp & 0x3F));
+                    if (out) memcpy(out + n, u, k);
+                    n += k;
+                    continue;
+                }
+                break;
+            default: return NULL;
+            }
+        }
+        if (out) out[n] = (char)cp;
+        n++;
+    }
+    if (p >= end) return NULL;
+    if (out_len) *out_len = n;
+    return p + 1;
+}
 
-    int in_string = 0;
-    size_t needle_len = strlen(needle);
+static const char* json_number(const char* p, const char* end) {
+    if (p < end && *p == '-') p++;
+    if (p >= end || !isdigit((unsigned char)*p)) return NULL;
+    if (*p == '0') p++;
+    else while (p < end && isdigit((unsigned char)*p)) p++;
+    if (p < end && *p == '.') {
+        if (++p >= end || !isdigit((unsigned char)*p)) return NULL;
+        while (p < end && isdigit((unsigned char)*p)) p++;
+    }
+    if (p < end && (*p == 'e' || *p == 'E')) {
+        if (++p < end && (*p == '+' || *p == '-')) p++;
+        if (p >= end || !isdigit((unsigned char)*p)) return NULL;
+        while (p < end && isdigit((unsigned char)*p)) p++;
+    }
+    return p;
+}
 
-    for (const char* p = json; *p; p++) {
-        if (!in_string && strncmp(p, needle, needle_len) == 0) {
-            return p;
-        }
-        if (*p == '"' && !is_escaped_quote(json, p)) {
-            in_string = !in_string;
+static const char* json_skip(const char* p, const char* end, int depth) {
+    if (p >= end || depth > NIP05_MAX_JSON_DEPTH) return NULL;
+    if (*p == '"') return json_string(p, end, NULL, NULL);
+    if (*p == '{' || *p == '[') {
+        char close = *p == '{' ? '}' : ']';
+        p = json_ws(p + 1, end);
+        if (p < end && *p == close) return p + 1;
+        for (;;) {
+            if (close == '}') {
+                p = json_string(p, end, NULL, NULL);
+                if (!p) return NULL;
+                p = json_ws(p, end);
+                if (p >= end || *p != ':') return NULL;
+                p = json_ws(p + 1, end);
+            }
+            p = json_skip(p, end, depth + 1);
+            if (!p) return NULL;
+            p = json_ws(p, end);
+            if (p >= end) return NULL;
+            if (*p == close) return p + 1;
+            if (*p != ',') return NULL;
+            p = json_ws(p + 1, end);
         }
     }
-    return NULL;
+    if (end - p >= 4 && (memcmp(p, "true", 4) == 0 || memcmp(p, "null", 4) == 0)) return p + 4;
+    if (end - p >= 5 && memcmp(p, "false", 5) == 0) return p + 5;
+    return json_number(p, end);
 }
 
-static int contains_unicode_escape(const char* s, size_t len) {
-    for (size_t i = 0; i + 1 < len; i++) {
-        if (s[i] == '\\' && s[i + 1] == 'u') return 1;
+/* Find the value of a direct member of the (well-formed) object at p. */
+static const char* json_member(const char* p, const char* end, const char* key, int ignore_case) {
+    size_t key_len = strlen(key);
+    p = json_ws(p + 1, end);
+    while (p && p < end && *p == '"') {
+        /* a character takes at most six bytes in the text */
+        char name[6 * (NIP05_MAX_NAME_LEN + 1)];
+        size_t len = 0;
+        const char* next = json_string(p, end, NULL, NULL);
+        int same = 0;
+        if (next && (size_t)(next - p) <= sizeof(name)) {
+            json_string(p, end, name, &len);
+            if (ignore_case) str_tolower(name, len);
+            same = len == key_len && memcmp(name, key, len) == 0;
+        }
+        if (!next) return NULL;
+        p = json_ws(json_ws(next, end) + 1, end);
+        if (same) return p;
+        p = json_skip(p, end, 0);
+        if (!p) return NULL;
+        p = json_ws(p, end);
+        if (p < end && *p == ',') p = json_ws(p + 1, end);
     }
-    return 0;
+    return NULL;
 }
 
 static int is_valid_relay_url(const char* url, size_t len) {
-    if (len < 6 || contains_unicode_escape(url, len)) return 0;
+    if (len < 6 || memchr(url, '\0', len)) return 0;
     return strncmp(url, "wss://", 6) == 0 || strncmp(url, "ws://", 5) == 0;
 }
 
@@ -164,75 +278,52 @@ nostr_error_t nostr_nip05_build_url(const char* name, const char* domain,
     return NOSTR_OK;
 }
 
-nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
-                                         char* pubkey_hex, size_t pubkey_size,
-                                         char*** relays, size_t* relay_count) {
-    if (!json || !name || !pubkey_hex || pubkey_size < 65) return NOSTR_ERR_INVALID_PARAM;
-    if (relays) *relays = NULL;
-    if (relay_count) *relay_count = 0;
-
-    size_t json_len = strlen(json);
-    if (json_len > NIP05_MAX_RESPONSE_SIZE) return NOSTR_ERR_INVALID_PARAM;
-
+static nostr_error_t parse_response(const char* json, size_t json_len, const char* name,
+                                    char* pubkey_hex, char*** relays, size_t* relay_count) {
     size_t name_len = strlen(name);
     if (name_len == 0 || name_len > NIP05_MAX_NAME_LEN) return NOSTR_ERR_INVALID_PARAM;
     for (size_t i = 0; i < name_len; i++) {
         if (name[i] == '"' || name[i] == '\\') return NOSTR_ERR_INVALID_PARAM;
     }
 
-    const char* names_pos = json_strstr(json, "\"names\"");
-    if (!names_pos) return NOSTR_ERR_NOT_FOUND;
+    const char* end = json + json_len;
+    const char* root = json_ws(json, end);
+    const char* after = json_skip(root, end, 0);
+    if (!after || json_ws(after, end) != end || *root != '{') return NOSTR_ERR_JSON_PARSE;
 
-    names_pos = skip_ws_and_colon(names_pos + 7);
+    const char* names_pos = json_member(root, end, "names", 0);
+    if (!names_pos) return NOSTR_ERR_NOT_FOUND;
     if (*names_pos != '{') return NOSTR_ERR_JSON_PARSE;
 
-    char search_name[NIP05_MAX_NAME_LEN + 4];
-    snprintf(search_name, sizeof(search_name), "\"%s\"", name);
-
-    const char* name_pos = json_strstr(names_pos, search_name);
+    const char* name_pos = json_member(names_pos, end, name, 0);
     if (!name_pos) return NOSTR_ERR_NOT_FOUND;
-
-    name_pos = skip_ws_and_colon(name_pos + strlen(search_name));
     if (*name_pos != '"') return NOSTR_ERR_JSON_PARSE;
-    name_pos++;
-
-    const char* pubkey_end = strchr(name_pos, '"');
-    if (!pubkey_end || pubkey_end - name_pos != 64) return NOSTR_ERR_INVALID_KEY;
 
+    char key[6 * 64 + 2];
+    size_t key_len = 0;
+    const char* key_end = json_string(name_pos, end, NULL, &key_len);
+    if (!key_end || key_len != 64 || (size_t)(key_end - name_pos) > sizeof(key)) return NOSTR_ERR_INVALID_KEY;
+    json_string(name_pos, end, key, &key_len);
     for (size_t i = 0; i < 64; i++) {
-        if (!is_hex_char(name_pos[i])) return NOSTR_ERR_INVALID_KEY;
+        if (!is_hex_char(key[i])) return NOSTR_ERR_INVALID_KEY;
     }
-    memcpy(pubkey_hex, name_pos, 64);
+    memcpy(pubkey_hex, key, 64);
     pubkey_hex[64] = '\0';
     str_tolower(pubkey_hex, 64);
 
     if (!relays || !relay_count) return NOSTR_OK;
 
-    const char* relays_pos = json_strstr(json, "\"relays\"");
-    if (!relays_pos) return NOSTR_OK;
+    const char* relays_pos = json_member(root, end, "relays", 0);
+    if (!relays_pos || *relays_pos != '{') return NOSTR_OK;
 
-    relays_pos = skip_ws_and_colon(relays_pos + 8);
-    if (*relays_pos != '{') return NOSTR_OK;
-
-    char pubkey_search[68];
-    snprintf(pubkey_search, sizeof(pubkey_search), "\"%s\"", pubkey_hex);
-
-    const char* pubkey_relays = json_strstr(relays_pos, pubkey_search);
-    if (!pubkey_relays) return NOSTR_OK;
-
-    pubkey_relays = skip_ws_and_colon(pubkey_relays + strlen(pubkey_search));
-    if (*pubkey_relays != '[') return NOSTR_OK;
-    pubkey_relays++;
+    const char* list = json_member(relays_pos, end, pubkey_hex, 1);
+    if (!list || *list != '[') return NOSTR_OK;
 
     size_t count = 0;
-    const char* p = pubkey_relays;
-    int in_string = 0;
-    while (*p && *p != ']') {
-        if (*p == '"' && !is_escaped_quote(pubkey_relays, p)) {
-            in_string = !in_string;
-            if (!in_string) count++;
-        }
-        p++;
+    for (const char* p = json_ws(list + 1, end); *p != ']'; ) {
+        if (*p == '"') count++;
+        p = json_ws(json_skip(p, end, 0), end);
+        if (*p == ',') p = json_ws(p + 1, end);
     }
 
     if (count == 0) return NOSTR_OK;
@@ -242,30 +333,25 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
     if (!relay_array) return NOSTR_ERR_MEMORY;
 
     size_t idx = 0;
-    p = pubkey_relays;
-    while (*p && *p != ']' && idx < count) {
-        while (*p && *p != '"' && *p != ']') p++;
-        if (*p != '"') break;
-        p++;
-
-        const char* relay_start = p;
-        while (*p && (*p != '"' || is_escaped_quote(pubkey_relays, p))) p++;
-        if (*p != '"') break;
-
-        size_t relay_len = p - relay_start;
-        if (!is_valid_relay_url(relay_start, relay_len)) {
-            p++;
-            continue;
-        }
-        relay_array[idx] = malloc(relay_len + 1);
-        if (!relay_array[idx]) {
-            nostr_nip05_free_relays(relay_array, idx);
-            return NOSTR_ERR_MEMORY;
+    for (const char* p = json_ws(list + 1, end); *p != ']'; ) {
+        const char* next = json_skip(p, end, 0);
+        if (*p == '"') {
+            size_t relay_len = 0;
+            char* relay = malloc((size_t)(next - p));
+            if (!relay) {
+                nostr_nip05_free_relays(relay_array, idx);
+                return NOSTR_ERR_MEMORY;
+            }
+            json_string(p, end, relay, &relay_len);
+            relay[relay_len] = '\0';
+            if (is_valid_relay_url(relay, relay_len)) {
+                relay_array[idx++] = relay;
+            } else {
+                free(relay);
+            }
         }
-        memcpy(relay_array[idx], relay_start, relay_len);
-        relay_array[idx][relay_len] = '\0';
-        idx++;
-        p++;
+        p = json_ws(next, end);
+        if (*p == ',') p = json_ws(p + 1, end);
     }
 
     *relays = relay_array;
@@ -274,6 +360,19 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
     return NOSTR_OK;
 }
 
+nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
+                                         char* pubkey_hex, size_t pubkey_size,
+                                         char*** relays, size_t* relay_count) {
+    if (!json || !name || !pubkey_hex || pubkey_size < 65) return NOSTR_ERR_INVALID_PARAM;
+    if (relays) *relays = NULL;
+    if (relay_count) *relay_count = 0;
+
+    size_t json_len = strlen(json);
+    if (json_len > NIP05_MAX_RESPONSE_SIZE) return NOSTR_ERR_INVALID_PARAM;
+
+    return parse_response(json, json_len, name, pubkey_hex, relays, relay_count);
+}
+
 void nostr_nip05_free_relays(char** relays, size_t count) {
     if (!relays) return;
     for (size_t i = 0; i < count; i++) {
@@ -319,9 +418,8 @@ nostr_error_t nostr_nip05_verify(const char* identifier, const char* expected_pu
     char** relays = NULL;
     size_t relay_count = 0;
 
-    err = nostr_nip05_parse_response(response, name, pubkey_hex, sizeof(pubkey_hex),
-                                     relays_out ? &relays : NULL,
-                                     relay_count_out ? &relay_count : NULL);
+    err = parse_response(response, response_len, name, pubkey_hex,
+                         relays_out ? &relays : NULL, relay_count_out ? &relay_count : NULL);
     free(response);
 
     if (err != NOSTR_OK) return err;
-- 
2.43.0


From 30e4be42fef9d3b0e1c121cee73acaaeb53815d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:14 +0000
Subject: [PATCH 31/91] fix: zap requests carry every relay and fail without a
 dangling event

---
 src/zap.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 962b91f..29e5952 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -59,28 +59,37 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         err = nostr_event_set_content(*event, content);
         if (err != NOSTR_OK) {
             nostr_event_destroy(*event);
+            *event = NULL;
             return err;
         }
     }
     
-    const char* relay_tag[16];
-    relay_tag[0] = "relays";
-    size_t tag_count = 1;
-    for (size_t i = 0; i < relays_count && tag_count < 16; i++) {
-        relay_tag[tag_count++] = relays[i];
+    const char** relay_tag = NULL;
+    if (relays_count < SIZE_MAX / sizeof(*relay_tag)) {
+        relay_tag = malloc((relays_count + 1) * sizeof(*relay_tag));
+    }
+    if (!relay_tag) {
+        nostr_event_destroy(*event);
+        *event = NULL;
+        return NOSTR_ERR_MEMORY;
     }
-    err = nostr_event_add_tag(*event, relay_tag, tag_count);
+    relay_tag[0] = "relays";
+    memcpy(&relay_tag[1], relays, relays_count * sizeof(*relay_tag));
+    err = nostr_event_add_tag(*event, relay_tag, relays_count + 1);
+    free(relay_tag);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
     char amount_str[32];
-    snprintf(amount_str, sizeof(amount_str), "%lu", (unsigned long)amount);
+    snprintf(amount_str, sizeof(amount_str), "%llu", (unsigned long long)amount);
     const char* amount_tag[] = {"amount", amount_str};
     err = nostr_event_add_tag(*event, amount_tag, 2);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
@@ -89,6 +98,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         err = nostr_event_add_tag(*event, lnurl_tag, 2);
         if (err != NOSTR_OK) {
             nostr_event_destroy(*event);
+            *event = NULL;
             return err;
         }
     }
@@ -97,12 +107,14 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     err = nostr_key_to_hex(recipient, pubkey_hex, sizeof(pubkey_hex));
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     const char* p_tag[] = {"p", pubkey_hex};
     err = nostr_event_add_tag(*event, p_tag, 2);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
-- 
2.43.0


From e762950b9a5ec08cc7408d5560370839e724e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 32/91] fix: check the LNURL's bech32 encoding without
 overrunning buffers

---
 src/zap.c | 62 +++++++++++++++++++++----------------------------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 29e5952..852226a 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -1,4 +1,5 @@
 #include "nostr.h"
+#include "bech32_internal.h"
 
 #ifdef NOSTR_FEATURE_NIP57
 
@@ -10,36 +11,33 @@
 #define ZAP_REQUEST_KIND 9734
 #define ZAP_RECEIPT_KIND 9735
 
-static int is_valid_bech32_char(char c)
+static nostr_error_t check_bech32(const char* bech32, const char* hrp)
 {
-    const char* charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
-    return strchr(charset, tolower(c)) != NULL;
-}
-
-static int decode_bech32(const char* bech32, char* hrp, uint8_t* data, size_t* data_len)
-{
-    size_t bech32_len = strlen(bech32);
-    if (bech32_len < 8 || bech32_len > 90) {
-        return 0;
+    size_t hrp_len = strlen(hrp);
+    size_t len = strlen(bech32);
+    if (len < hrp_len + 7 || strncmp(bech32, hrp, hrp_len) != 0 || bech32[hrp_len] != '1') {
+        return NOSTR_ERR_ENCODING;
     }
-    
-    size_t separator = 0;
-    for (size_t i = 0; i < bech32_len; ++i) {
-        if (bech32[i] == '1') {
-            separator = i;
-        }
+
+    size_t data_len = len - hrp_len - 1;
+    uint8_t* data = malloc(data_len * 2);
+    if (!data) {
+        return NOSTR_ERR_MEMORY;
     }
-    
-    if (separator < 1 || separator + 7 > bech32_len) {
-        return 0;
+
+    int valid = 1;
+    for (size_t i = 0; i < data_len && valid; i++) {
+        int value = bech32_charset_decode(bech32[hrp_len + 1 + i]);
+        valid = value >= 0;
+        data[i] = (uint8_t)value;
     }
-    
-    if (hrp) {
-        memcpy(hrp, bech32, separator);
-        hrp[separator] = '\0';
+    valid = valid && bech32_verify_checksum(hrp, data, data_len);
+    if (valid && data_len > 6) {
+        valid = bech32_convert_bits(data, data_len - 6, data + data_len, data_len, 5, 8, 0) > 0;
     }
-    
-    return 1;
+
+    free(data);
+    return valid ? NOSTR_OK : NOSTR_ERR_ENCODING;
 }
 
 nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, const nostr_key* recipient, const char* lnurl, const char* content, const char** relays, size_t relays_count)
@@ -131,19 +129,7 @@ nostr_error_t nostr_zap_validate_lnurl(const char* lnurl, char* nostr_pubkey, bo
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    char hrp[32];
-    uint8_t data[256];
-    size_t data_len = sizeof(data);
-    
-    if (!decode_bech32(lnurl, hrp, data, &data_len)) {
-        return NOSTR_ERR_ENCODING;
-    }
-    
-    if (strcmp(hrp, "lnurl") != 0) {
-        return NOSTR_ERR_INVALID_PARAM;
-    }
-    
-    return NOSTR_OK;
+    return check_bech32(lnurl, "lnurl");
 }
 
 nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount, char** bolt11, char* preimage, nostr_event** zap_request)
-- 
2.43.0


From 859cc6018073764f611bdff61aa064ac83123e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:36 +0000
Subject: [PATCH 33/91] fix: parse zap receipts exactly and all or nothing

---
 src/zap.c | 151 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 102 insertions(+), 49 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 852226a..f8521db 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -132,71 +132,124 @@ nostr_error_t nostr_zap_validate_lnurl(const char* lnurl, char* nostr_pubkey, bo
     return check_bech32(lnurl, "lnurl");
 }
 
+/* Amount in millisats from the human-readable part of a BOLT-11 invoice; 0 if it has none. */
+static int invoice_amount(const char* bolt11, uint64_t* amount)
+{
+    *amount = 0;
+
+    const char* end = strrchr(bolt11, '1');
+    const char* p = bolt11;
+    if (!end || tolower((unsigned char)p[0]) != 'l' || tolower((unsigned char)p[1]) != 'n') {
+        return 0;
+    }
+    p += 2;
+    const char* network = p;
+    while (p < end && isalpha((unsigned char)*p)) p++;
+    if (p == network) {
+        return 0;
+    }
+    if (p == end) {
+        return 1;
+    }
+
+    uint64_t value = 0;
+    const char* digits = p;
+    while (p < end && isdigit((unsigned char)*p)) {
+        uint64_t digit = (uint64_t)(*p++ - '0');
+        if (value > (UINT64_MAX - digit) / 10) {
+            return 0;
+        }
+        value = value * 10 + digit;
+    }
+    if (p == digits) {
+        return 0;
+    }
+
+    uint64_t multiplier = 100000000000ULL;
+    if (p < end) {
+        switch (tolower((unsigned char)*p++)) {
+            case 'm': multiplier = 100000000; break;
+            case 'u': multiplier = 100000; break;
+            case 'n': multiplier = 100; break;
+            case 'p':
+                if (value % 10 != 0) {
+                    return 0;
+                }
+                value /= 10;
+                multiplier = 1;
+                break;
+            default: return 0;
+        }
+    }
+    if (p != end || value > UINT64_MAX / multiplier) {
+        return 0;
+    }
+    *amount = value * multiplier;
+    return 1;
+}
+
 nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount, char** bolt11, char* preimage, nostr_event** zap_request)
 {
+    if (amount) *amount = 0;
+    if (bolt11) *bolt11 = NULL;
+    if (preimage) preimage[0] = '\0';
+    if (zap_request) *zap_request = NULL;
+
     if (!event || event->kind != ZAP_RECEIPT_KIND) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-    
+
+    const char* invoice = NULL;
+    const char* proof = NULL;
+    const char* description = NULL;
     for (size_t i = 0; i < event->tags_count; i++) {
         if (event->tags[i].count < 2) {
             continue;
         }
-        
+
         const char* tag_name = event->tags[i].values[0];
         const char* tag_value = event->tags[i].values[1];
-        
-        if (strcmp(tag_name, "bolt11") == 0 && bolt11) {
-            *bolt11 = strdup(tag_value);
-            if (!*bolt11) {
-                return NOSTR_ERR_MEMORY;
-            }
-        } else if (strcmp(tag_name, "preimage") == 0 && preimage) {
-            size_t len = strlen(tag_value);
-            if (len <= 64) {
-                memcpy(preimage, tag_value, len);
-                preimage[len] = '\0';
-            }
-        } else if (strcmp(tag_name, "description") == 0 && zap_request) {
-            nostr_error_t err = nostr_event_from_json(tag_value, zap_request);
-            if (err != NOSTR_OK) {
-                if (bolt11 && *bolt11) {
-                    free(*bolt11);
-                    *bolt11 = NULL;
-                }
-                return err;
-            }
+
+        if (strcmp(tag_name, "bolt11") == 0) {
+            invoice = tag_value;
+        } else if (strcmp(tag_name, "preimage") == 0) {
+            proof = tag_value;
+        } else if (strcmp(tag_name, "description") == 0) {
+            description = tag_value;
         }
     }
-    
-    if (amount && bolt11 && *bolt11) {
-        const char* amt_start = strstr(*bolt11, "lnbc");
-        if (amt_start) {
-            amt_start += 4;
-            char* amt_end;
-            unsigned long amt = strtoul(amt_start, &amt_end, 10);
-            if (amt_end > amt_start) {
-                char multiplier = tolower(*amt_end);
-                switch (multiplier) {
-                    case 'm':
-                        *amount = amt * 100000000;
-                        break;
-                    case 'u':
-                        *amount = amt * 100000;
-                        break;
-                    case 'n':
-                        *amount = amt * 100;
-                        break;
-                    case 'p':
-                        *amount = amt / 10;
-                        break;
-                    default:
-                        *amount = amt * 100000000000;
-                }
+
+    uint64_t invoiced = 0;
+    if (invoice && !invoice_amount(invoice, &invoiced)) {
+        return NOSTR_ERR_INVALID_EVENT;
+    }
+
+    if (description && zap_request) {
+        nostr_error_t err = nostr_event_from_json(description, zap_request);
+        if (err != NOSTR_OK) {
+            *zap_request = NULL;
+            return err;
+        }
+    }
+
+    if (invoice && bolt11) {
+        *bolt11 = strdup(invoice);
+        if (!*bolt11) {
+            if (description && zap_request) {
+                nostr_event_destroy(*zap_request);
+                *zap_request = NULL;
             }
+            return NOSTR_ERR_MEMORY;
         }
     }
-    
+
+    if (proof && preimage && strlen(proof) <= 64) {
+        strcpy(preimage, proof);
+    }
+    if (amount) {
+        *amount = invoiced;
+    }
+
     return NOSTR_OK;
 }
 
-- 
2.43.0


From 6914fca43b3c547b3a8f8bab34ec5a5b2c325762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:48 +0000
Subject: [PATCH 34/91] fix: zap verification requires the authentic request
 and its amount

---
 src/zap.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index f8521db..8605f4c 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -282,35 +282,39 @@ nostr_error_t nostr_zap_verify(const nostr_event* receipt, const nostr_event* re
         return err;
     }
     
+    int has_invoice = bolt11 != NULL;
+    free(bolt11);
     if (!embedded_request) {
-        if (bolt11) free(bolt11);
         return NOSTR_ERR_INVALID_EVENT;
     }
-    
-    int id_match = nostr_constant_time_memcmp(request->id, embedded_request->id, NOSTR_ID_SIZE) == 0;
-    if (!id_match) {
-        nostr_event_destroy(embedded_request);
-        if (bolt11) free(bolt11);
+
+    /* The id stands for the whole request only when both are authentic. */
+    int match = has_invoice &&
+        nostr_constant_time_memcmp(request->id, embedded_request->id, NOSTR_ID_SIZE) == 0 &&
+        nostr_event_verify(embedded_request) == NOSTR_OK &&
+        nostr_event_verify(request) == NOSTR_OK;
+    nostr_event_destroy(embedded_request);
+    if (!match) {
         return NOSTR_ERR_INVALID_EVENT;
     }
-    
+
     uint64_t request_amount = 0;
     for (size_t i = 0; i < request->tags_count; i++) {
         if (request->tags[i].count >= 2 && strcmp(request->tags[i].values[0], "amount") == 0) {
-            request_amount = strtoull(request->tags[i].values[1], NULL, 10);
+            const char* digits = request->tags[i].values[1];
+            size_t len = strlen(digits);
+            if (len == 0 || len > 19 || strspn(digits, "0123456789") != len) {
+                return NOSTR_ERR_INVALID_EVENT;
+            }
+            request_amount = strtoull(digits, NULL, 10);
             break;
         }
     }
     
-    if (request_amount > 0 && receipt_amount > 0 && request_amount != receipt_amount) {
-        nostr_event_destroy(embedded_request);
-        if (bolt11) free(bolt11);
+    if (request_amount > 0 && request_amount != receipt_amount) {
         return NOSTR_ERR_INVALID_EVENT;
     }
-    
-    nostr_event_destroy(embedded_request);
-    if (bolt11) free(bolt11);
-    
+
     err = nostr_event_verify(receipt);
     if (err != NOSTR_OK) {
         return err;
-- 
2.43.0


From b851d12332291985d841c760fd5979495bfe9e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:36 +0000
Subject: [PATCH 35/91] fix: match filters against every tag and negative time
 bounds

---
 src/relay_filter.c | 71 +++++++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 42 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 6ef4301..5ef8a28 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -343,6 +343,24 @@ static bool hex_starts_with(const char* hex, size_t hex_len, const char* prefix)
     return strncmp(hex, prefix, prefix_len) == 0;
 }
 
+static bool has_tag_value(const nostr_event* event, const char* tag_name,
+                          char* const* values, size_t values_count)
+{
+    for (size_t i = 0; event->tags && i < event->tags_count; i++) {
+        const nostr_tag* tag = &event->tags[i];
+        if (tag->count < 2 || !tag->values[0] || !tag->values[1] ||
+            strcmp(tag->values[0], tag_name) != 0) {
+            continue;
+        }
+        for (size_t j = 0; j < values_count; j++) {
+            if (strcmp(tag->values[1], values[j]) == 0) {
+                return true;
+            }
+        }
+    }
+    return false;
+}
+
 bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event)
 {
     if (!filter || !event) return false;
@@ -384,62 +402,31 @@ bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event
         if (!matched) return false;
     }
 
-    if (filter->since > 0 && event->created_at < filter->since) {
+    if (filter->since != 0 && event->created_at < filter->since) {
         return false;
     }
 
-    if (filter->until > 0 && event->created_at > filter->until) {
+    if (filter->until != 0 && event->created_at > filter->until) {
         return false;
     }
 
-    if (filter->e_tags_count > 0) {
-        bool matched = false;
-        const char* e_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t e_count = nostr_event_get_tag_values(event, "e", e_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        for (size_t i = 0; i < filter->e_tags_count && !matched; i++) {
-            for (size_t j = 0; j < e_count; j++) {
-                if (e_values[j] && strcmp(e_values[j], filter->e_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
-        }
-        if (!matched) return false;
+    if (filter->e_tags_count > 0 &&
+        !has_tag_value(event, "e", filter->e_tags, filter->e_tags_count)) {
+        return false;
     }
 
-    if (filter->p_tags_count > 0) {
-        bool matched = false;
-        const char* p_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t p_count = nostr_event_get_tag_values(event, "p", p_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        for (size_t i = 0; i < filter->p_tags_count && !matched; i++) {
-            for (size_t j = 0; j < p_count; j++) {
-                if (p_values[j] && strcmp(p_values[j], filter->p_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
-        }
-        if (!matched) return false;
+    if (filter->p_tags_count > 0 &&
+        !has_tag_value(event, "p", filter->p_tags, filter->p_tags_count)) {
+        return false;
     }
 
     for (size_t t = 0; t < filter->generic_tags_count; t++) {
         char tag_name[2] = { filter->generic_tags[t].tag_name, '\0' };
 
-        const char* tag_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t tag_count = nostr_event_get_tag_values(event, tag_name, tag_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        bool matched = false;
-        for (size_t i = 0; i < filter->generic_tags[t].values_count && !matched; i++) {
-            for (size_t j = 0; j < tag_count; j++) {
-                if (tag_values[j] && strcmp(tag_values[j], filter->generic_tags[t].values[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
+        if (!has_tag_value(event, tag_name, filter->generic_tags[t].values,
+                           filter->generic_tags[t].values_count)) {
+            return false;
         }
-        if (!matched) return false;
     }
 
     return true;
-- 
2.43.0


From 5d1b706576e05657a095b50f2a3e31114ff29d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:36 +0000
Subject: [PATCH 36/91] fix: reject filter JSON whose conditions cannot be read
 exactly

---
 src/relay_filter.c | 110 +++++++++++++++++++++++++++------------------
 src/relay_json.h   |  77 +++++++++++++++++++++++++++++++
 2 files changed, 143 insertions(+), 44 deletions(-)
 create mode 100644 src/relay_json.h

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 5ef8a28..5de7a6f 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -11,22 +11,27 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
+#include "relay_json.h"
 #endif
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
 static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_t* out_count)
 {
-    if (!arr || !cJSON_IsArray(arr)) {
-        *out_arr = NULL;
-        *out_count = 0;
+    *out_arr = NULL;
+    *out_count = 0;
+
+    if (!arr) {
         return NOSTR_RELAY_OK;
     }
 
+    /* a condition that cannot be read must not be dropped from the filter */
+    if (!cJSON_IsArray(arr)) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
     int count = cJSON_GetArraySize(arr);
     if (count == 0) {
-        *out_arr = NULL;
-        *out_count = 0;
         return NOSTR_RELAY_OK;
     }
 
@@ -39,22 +44,22 @@ static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
-    *out_count = 0;
     for (int i = 0; i < count; i++) {
         cJSON* item = cJSON_GetArrayItem(arr, i);
-        if (cJSON_IsString(item) && item->valuestring) {
+        bool is_string = cJSON_IsString(item) && item->valuestring;
+        if (is_string) {
             (*out_arr)[*out_count] = strdup(item->valuestring);
-            if (!(*out_arr)[*out_count]) {
-                for (size_t j = 0; j < *out_count; j++) {
-                    free((*out_arr)[j]);
-                }
-                free(*out_arr);
-                *out_arr = NULL;
-                *out_count = 0;
-                return NOSTR_RELAY_ERR_MEMORY;
+        }
+        if (!(*out_arr)[*out_count]) {
+            for (size_t j = 0; j < *out_count; j++) {
+                free((*out_arr)[j]);
             }
-            (*out_count)++;
+            free(*out_arr);
+            *out_arr = NULL;
+            *out_count = 0;
+            return is_string ? NOSTR_RELAY_ERR_MEMORY : NOSTR_RELAY_ERR_INVALID_JSON;
         }
+        (*out_count)++;
     }
 
     return NOSTR_RELAY_OK;
@@ -62,16 +67,20 @@ static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_
 
 static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t* out_count)
 {
-    if (!arr || !cJSON_IsArray(arr)) {
-        *out_arr = NULL;
-        *out_count = 0;
+    *out_arr = NULL;
+    *out_count = 0;
+
+    if (!arr) {
         return NOSTR_RELAY_OK;
     }
 
+    /* a condition that cannot be read must not be dropped from the filter */
+    if (!cJSON_IsArray(arr)) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
     int count = cJSON_GetArraySize(arr);
     if (count == 0) {
-        *out_arr = NULL;
-        *out_count = 0;
         return NOSTR_RELAY_OK;
     }
 
@@ -84,12 +93,15 @@ static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
-    *out_count = 0;
     for (int i = 0; i < count; i++) {
-        cJSON* item = cJSON_GetArrayItem(arr, i);
-        if (cJSON_IsNumber(item)) {
-            (*out_arr)[(*out_count)++] = (int32_t)item->valueint;
+        int64_t value = 0;
+        if (!relay_json_integer(cJSON_GetArrayItem(arr, i), INT32_MIN, INT32_MAX, &value)) {
+            free(*out_arr);
+            *out_arr = NULL;
+            *out_count = 0;
+            return NOSTR_RELAY_ERR_INVALID_JSON;
         }
+        (*out_arr)[(*out_count)++] = (int32_t)value;
     }
 
     return NOSTR_RELAY_OK;
@@ -103,26 +115,28 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
 
     memset(filter, 0, sizeof(nostr_filter_t));
 
-    cJSON* root = (json_len > 0) ? cJSON_ParseWithLength(json, json_len) : cJSON_Parse(json);
-    if (!root) {
+    cJSON* root = relay_json_parse(json, json_len);
+    if (!cJSON_IsObject(root)) {
+        cJSON_Delete(root);
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
+    const double max_safe_integer = 9007199254740991.0;
     nostr_relay_error_t err;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "ids"), &filter->ids, &filter->ids_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "ids"), &filter->ids, &filter->ids_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "authors"), &filter->authors, &filter->authors_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "authors"), &filter->authors, &filter->authors_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_int_array(cJSON_GetObjectItem(root, "kinds"), &filter->kinds, &filter->kinds_count);
+    err = parse_int_array(cJSON_GetObjectItemCaseSensitive(root, "kinds"), &filter->kinds, &filter->kinds_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#e"), &filter->e_tags, &filter->e_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#e"), &filter->e_tags, &filter->e_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#p"), &filter->p_tags, &filter->p_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#p"), &filter->p_tags, &filter->p_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
     size_t generic_count = 0;
@@ -167,24 +181,32 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         filter->generic_tags_count = generic_count;
     }
 
-    cJSON* since = cJSON_GetObjectItem(root, "since");
-    if (since && cJSON_IsNumber(since)) {
-        filter->since = (int64_t)since->valuedouble;
+    cJSON* since = cJSON_GetObjectItemCaseSensitive(root, "since");
+    if (since && !relay_json_integer(since, -max_safe_integer, max_safe_integer, &filter->since)) {
+        err = NOSTR_RELAY_ERR_INVALID_JSON;
+        goto cleanup;
     }
 
-    cJSON* until = cJSON_GetObjectItem(root, "until");
-    if (until && cJSON_IsNumber(until)) {
-        filter->until = (int64_t)until->valuedouble;
+    cJSON* until = cJSON_GetObjectItemCaseSensitive(root, "until");
+    if (until && !relay_json_integer(until, -max_safe_integer, max_safe_integer, &filter->until)) {
+        err = NOSTR_RELAY_ERR_INVALID_JSON;
+        goto cleanup;
     }
 
-    cJSON* limit = cJSON_GetObjectItem(root, "limit");
-    if (limit && cJSON_IsNumber(limit)) {
-        filter->limit = limit->valueint;
+    cJSON* limit = cJSON_GetObjectItemCaseSensitive(root, "limit");
+    if (limit) {
+        int64_t value = 0;
+        if (!relay_json_integer(limit, INT32_MIN, INT32_MAX, &value)) {
+            err = NOSTR_RELAY_ERR_INVALID_JSON;
+            goto cleanup;
+        }
+        filter->limit = (int32_t)value;
     }
 
-    cJSON* search = cJSON_GetObjectItem(root, "search");
-    if (search && cJSON_IsString(search) && search->valuestring) {
-        if (strlen(search->valuestring) > NOSTR_DEFAULT_MAX_CONTENT_LENGTH) {
+    cJSON* search = cJSON_GetObjectItemCaseSensitive(root, "search");
+    if (search) {
+        if (!cJSON_IsString(search) || !search->valuestring ||
+            strlen(search->valuestring) > NOSTR_DEFAULT_MAX_CONTENT_LENGTH) {
             err = NOSTR_RELAY_ERR_INVALID_JSON;
             goto cleanup;
         }
diff --git a/src/relay_json.h b/src/relay_json.h
new file mode 100644
index 0000000..e4b2554
--- /dev/null
+++ b/src/relay_json.h
@@ -0,0 +1,77 @@
+/**
+ * @file relay_json.h
+ * @brief Strict reading of JSON texts on top of cJSON (internal)
+ */
+
+#ifndef NOSTR_RELAY_JSON_H
+#define NOSTR_RELAY_JSON_H
+
+#include <cjson/cJSON.h>
+#include <stdbool.h>
+#include <stdint.h>
+#include <string.h>
+
+/* C strings cannot hold U+0000, cJSON would silently cut the value short;
+ * it also reads an escape with a bad digit as U+0000 */
+static inline bool relay_json_has_nul_escape(const char* json, size_t len)
+{
+    for (size_t i = 0; i < len; i++) {
+        if (json[i] != '\\') {
+            continue;
+        }
+        if (i + 1 < len && json[i + 1] == 'u') {
+            if (len - i < 6) {
+                return true;
+            }
+            bool zero = true;
+            for (size_t j = i + 2; j < i + 6; j++) {
+                if (!memchr("0123456789abcdefABCDEF", json[j], 22)) {
+                    return true;
+                }
+                zero = zero && json[j] == '0';
+            }
+            if (zero) {
+                return true;
+            }
+        }
+        i++;
+    }
+    return false;
+}
+
+/* parses exactly the given text, which need not be terminated;
+ * a zero length means the text is a C string */
+static inline cJSON* relay_json_parse(const char* json, size_t json_len)
+{
+    size_t len = (json_len > 0) ? json_len : strlen(json);
+    const char* end = NULL;
+
+    if (relay_json_has_nul_escape(json, len)) {
+        return NULL;
+    }
+
+    cJSON* root = cJSON_ParseWithLengthOpts(json, len, &end, 0);
+    if (!root) {
+        return NULL;
+    }
+
+    while (end < json + len && (*end == ' ' || *end == '\t' || *end == '\n' || *end == '\r')) {
+        end++;
+    }
+    if (end != json + len) {
+        cJSON_Delete(root);
+        return NULL;
+    }
+    return root;
+}
+
+static inline bool relay_json_integer(const cJSON* item, double min, double max, int64_t* value)
+{
+    if (!cJSON_IsNumber(item) || !(item->valuedouble >= min && item->valuedouble <= max)) {
+        return false;
+    }
+    *value = (int64_t)item->valuedouble;
+    return (double)*value == item->valuedouble;
+}
+
+#endif
-- 
2.43.0


From c74deae6ff86646e893f9f9630fb5fee09451436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:20 +0000
Subject: [PATCH 37/91] fix: read client messages exactly or not at all

---
 src/relay_message.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index 9a8ff3a..bb3babb 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -9,6 +9,7 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
+#include "relay_json.h"
 #endif
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
@@ -88,7 +89,7 @@ nostr_relay_error_t nostr_client_msg_parse(const char* json, size_t json_len, no
     memset(msg, 0, sizeof(nostr_client_msg_t));
     msg->type = NOSTR_CLIENT_MSG_UNKNOWN;
 
-    cJSON* root = (json_len > 0) ? cJSON_ParseWithLength(json, json_len) : cJSON_Parse(json);
+    cJSON* root = relay_json_parse(json, json_len);
     if (!root || !cJSON_IsArray(root)) {
         if (root) cJSON_Delete(root);
         return NOSTR_RELAY_ERR_INVALID_JSON;
-- 
2.43.0


From 06bb3aeadc25146bef00765dbeacf687ce7f69d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:53 +0000
Subject: [PATCH 38/91] fix: cut over-long relay message text between
 characters

---
 src/relay_message.c | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index bb3babb..f6d2d9a 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -295,14 +295,27 @@ void nostr_client_msg_free(nostr_client_msg_t* msg)
     memset(msg, 0, sizeof(nostr_client_msg_t));
 }
 
+/* text that does not fit is cut between characters, so it stays valid UTF-8 */
+static void copy_text(char* dst, const char* src, size_t dst_size)
+{
+    size_t len = strlen(src);
+    if (len >= dst_size) {
+        len = dst_size - 1;
+        while (len > 0 && ((unsigned char)src[len] & 0xC0) == 0x80) {
+            len--;
+        }
+    }
+    memcpy(dst, src, len);
+    dst[len] = '\0';
+}
+
 void nostr_relay_msg_event(nostr_relay_msg_t* msg, const char* sub_id, const nostr_event* event)
 {
     if (!msg) return;
     memset(msg, 0, sizeof(nostr_relay_msg_t));
     msg->type = NOSTR_RELAY_MSG_EVENT;
     if (sub_id) {
-        strncpy(msg->data.event.subscription_id, sub_id, 64);
-        msg->data.event.subscription_id[64] = '\0';
+        copy_text(msg->data.event.subscription_id, sub_id, sizeof(msg->data.event.subscription_id));
     }
     msg->data.event.event = event;
 }
@@ -313,13 +326,11 @@ void nostr_relay_msg_ok(nostr_relay_msg_t* msg, const char* event_id, bool succe
     memset(msg, 0, sizeof(nostr_relay_msg_t));
     msg->type = NOSTR_RELAY_MSG_OK;
     if (event_id) {
-        strncpy(msg->data.ok.event_id, event_id, 64);
-        msg->data.ok.event_id[64] = '\0';
+        copy_text(msg->data.ok.event_id, event_id, sizeof(msg->data.ok.event_id));
     }
     msg->data.ok.success = success;
     if (message) {
-        strncpy(msg->data.ok.message, message, 255);
-        msg->data.ok.message[255] = '\0';
+        copy_text(msg->data.ok.message, message, sizeof(msg->data.ok.message));
     }
 }
 
@@ -329,8 +340,7 @@ void nostr_relay_msg_eose(nostr_relay_msg_t* msg, const char* sub_id)
     memset(msg, 0, sizeof(nostr_relay_msg_t));
     msg->type = NOSTR_RELAY_MSG_EOSE;
     if (sub_id) {
-        strncpy(msg->data.eose.subscription_id, sub_id, 64);
-        msg->data.eose.subscription_id[64] = '\0';
+        copy_text(msg->data.eose.subscription_id, sub_id, sizeof(msg->data.eose.subscription_id));
     }
 }
 
@@ -340,12 +350,10 @@ void nostr_relay_msg_closed(nostr_relay_msg_t* msg, const char* sub_id, const ch
     memset(msg, 0, sizeof(nostr_relay_msg_t));
     msg->type = NOSTR_RELAY_MSG_CLOSED;
     if (sub_id) {
-        strncpy(msg->data.closed.subscription_id, sub_id, 64);
-        msg->data.closed.subscription_id[64] = '\0';
+        copy_text(msg->data.closed.subscription_id, sub_id, sizeof(msg->data.closed.subscription_id));
     }
     if (message) {
-        strncpy(msg->data.closed.message, message, 255);
-        msg->data.closed.message[255] = '\0';
+        copy_text(msg->data.closed.message, message, sizeof(msg->data.closed.message));
     }
 }
 
@@ -355,8 +363,7 @@ void nostr_relay_msg_notice(nostr_relay_msg_t* msg, const char* message)
     memset(msg, 0, sizeof(nostr_relay_msg_t));
     msg->type = NOSTR_RELAY_MSG_NOTICE;
     if (message) {
-        strncpy(msg->data.notice.message, message, 255);
-        msg->data.notice.message[255] = '\0';
+        copy_text(msg->data.notice.message, message, sizeof(msg->data.notice.message));
     }
 }
 
@@ -366,8 +373,7 @@ void nostr_relay_msg_auth(nostr_relay_msg_t* msg, const char* challenge)
     memset(msg, 0, sizeof(nostr_relay_msg_t));
     msg->type = NOSTR_RELAY_MSG_AUTH;
     if (challenge) {
-        strncpy(msg->data.auth.challenge, challenge, 127);
-        msg->data.auth.challenge[127] = '\0';
+        copy_text(msg->data.auth.challenge, challenge, sizeof(msg->data.auth.challenge));
     }
 }
 
@@ -377,8 +383,7 @@ void nostr_relay_msg_count(nostr_relay_msg_t* msg, const char* query_id, int64_t
     memset(msg, 0, sizeof(nostr_relay_msg_t));
     msg->type = NOSTR_RELAY_MSG_COUNT;
     if (query_id) {
-        strncpy(msg->data.count.query_id, query_id, 64);
-        msg->data.count.query_id[64] = '\0';
+        copy_text(msg->data.count.query_id, query_id, sizeof(msg->data.count.query_id));
     }
     msg->data.count.count = (count < 0) ? 0 : count;
     msg->data.count.approximate = approximate;
-- 
2.43.0


From 55774d80c5c40cd787f0e1b717f7d8265ab0be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:09 +0000
Subject: [PATCH 39/91] fix: serialize relay messages without rounding numbers
 or dropping items

---
 src/relay_message.c | 78 +++++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 31 deletions(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index f6d2d9a..187c9d0 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -4,6 +4,8 @@
  */
 
 #include "../include/nostr_relay_protocol.h"
+#include <inttypes.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -391,6 +393,16 @@ void nostr_relay_msg_count(nostr_relay_msg_t* msg, const char* query_id, int64_t
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
+/* reports an item that could not be allocated instead of dropping it */
+static bool append_item(cJSON* array, cJSON* item)
+{
+    if (item && cJSON_AddItemToArray(array, item)) {
+        return true;
+    }
+    cJSON_Delete(item);
+    return false;
+}
+
 nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char* buf, size_t buf_size, size_t* out_len)
 {
     if (!msg || !buf || buf_size == 0) {
@@ -402,10 +414,11 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
+    bool ok = true;
     switch (msg->type) {
         case NOSTR_RELAY_MSG_EVENT: {
-            cJSON_AddItemToArray(root, cJSON_CreateString("EVENT"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.event.subscription_id));
+            ok = ok && append_item(root, cJSON_CreateString("EVENT"));
+            ok = ok && append_item(root, cJSON_CreateString(msg->data.event.subscription_id));
 
             if (!msg->data.event.event) {
                 cJSON_Delete(root);
@@ -416,57 +429,60 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            cJSON* event_obj = cJSON_Parse(event_json);
+            cJSON* event_obj = ok ? cJSON_Parse(event_json) : NULL;
             free(event_json);
-            if (!event_obj) {
-                cJSON_Delete(root);
-                return NOSTR_RELAY_ERR_MEMORY;
+            ok = ok && append_item(root, event_obj);
+
+            /* cJSON rounds large numbers */
+            char created_at[32];
+            snprintf(created_at, sizeof(created_at), "%" PRId64, msg->data.event.event->created_at);
+            cJSON* created_at_item = ok ? cJSON_CreateRaw(created_at) : NULL;
+            ok = ok && created_at_item &&
+                 cJSON_ReplaceItemInObjectCaseSensitive(event_obj, "created_at", created_at_item);
+            if (!ok) {
+                cJSON_Delete(created_at_item);
             }
-            cJSON_AddItemToArray(root, event_obj);
             break;
         }
 
         case NOSTR_RELAY_MSG_OK:
-            cJSON_AddItemToArray(root, cJSON_CreateString("OK"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.event_id));
-            cJSON_AddItemToArray(root, cJSON_CreateBool(msg->data.ok.success));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.message));
+            ok = ok && append_item(root, cJSON_CreateString("OK"));
+            ok = ok && append_item(root, cJSON_CreateString(msg->data.ok.event_id));
+            ok = ok && append_item(root, cJSON_CreateBool(msg->data.ok.success));
+            ok = ok && append_item(root, cJSON_CreateString(msg->data.ok.message));
             break;
 
         case NOSTR_RELAY_MSG_EOSE:
-            cJSON_AddItemToArray(root, cJSON_CreateString("EOSE"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.eose.subscription_id));
+            ok = ok && append_item(root, cJSON_CreateString("EOSE"));
+            ok = ok && append_item(root, cJSON_CreateString(msg->data.eose.subscription_id));
             break;
 
         case NOSTR_RELAY_MSG_CLOSED:
-            cJSON_AddItemToArray(root, cJSON_CreateString("CLOSED"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.subscription_id));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.message));
+            ok = ok && append_item(root, cJSON_CreateString("CLOSED"));
+            ok = ok && append_item(root, cJSON_CreateString(msg->data.closed.subscription_id));
+            ok = ok && append_item(root, cJSON_CreateString(msg->data.closed.message));
             break;
 
         case NOSTR_RELAY_MSG_NOTICE:
-            cJSON_AddItemToArray(root, cJSON_CreateString("NOTICE"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.notice.message));
+            ok = ok && append_item(root, cJSON_CreateString("NOTICE"));
+            ok = ok && append_item(root, cJSON_CreateString(msg->data.notice.message));
             break;
 
         case NOSTR_RELAY_MSG_AUTH:
-            cJSON_AddItemToArray(root, cJSON_CreateString("AUTH"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.auth.challenge));
+            ok = ok && append_item(root, cJSON_CreateString("AUTH"));
+            ok = ok && append_item(root, cJSON_CreateString(msg->data.auth.challenge));
             break;
 
         case NOSTR_RELAY_MSG_COUNT: {
-            cJSON_AddItemToArray(root, cJSON_CreateString("COUNT"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.count.query_id));
-            cJSON* count_obj = cJSON_CreateObject();
-            if (!count_obj) {
-                cJSON_Delete(root);
-                return NOSTR_RELAY_ERR_MEMORY;
-            }
-            cJSON_AddNumberToObject(count_obj, "count", (double)msg->data.count.count);
+            ok = ok && append_item(root, cJSON_CreateString("COUNT"));
+            ok = ok && append_item(root, cJSON_CreateString(msg->data.count.query_id));
+            char count[32];
+            snprintf(count, sizeof(count), "%" PRId64, msg->data.count.count);
+            cJSON* count_obj = ok ? cJSON_CreateObject() : NULL;
+            ok = ok && append_item(root, count_obj) && cJSON_AddRawToObject(count_obj, "count", count);
             if (msg->data.count.approximate) {
-                cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True);
+                ok = ok && cJSON_AddTrueToObject(count_obj, "approximate");
             }
-            cJSON_AddItemToArray(root, count_obj);
             break;
         }
 
@@ -475,7 +491,7 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
             return NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE;
     }
 
-    char* json_str = cJSON_PrintUnformatted(root);
+    char* json_str = ok ? cJSON_PrintUnformatted(root) : NULL;
     cJSON_Delete(root);
 
     if (!json_str) {
-- 
2.43.0


From d737c5feec5c748570ab08a911b7d47e19d4e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:55 +0000
Subject: [PATCH 40/91] fix: keep large numbers exact when reading client
 messages

---
 src/event.c         | 27 +++++++++++++++++----------
 src/relay_filter.c  | 28 +++++++++++++++++++---------
 src/relay_json.h    |  5 +++++
 src/relay_message.c | 33 +++------------------------------
 4 files changed, 44 insertions(+), 49 deletions(-)

diff --git a/src/event.c b/src/event.c
index 534e91e..2d4d573 100644
--- a/src/event.c
+++ b/src/event.c
@@ -23,6 +23,7 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
+#include "relay_json.h"
 #endif
 
 #ifdef HAVE_NOSCRYPT
@@ -619,6 +620,21 @@ static nostr_error_t fill_event_from_json(nostr_event* event, const cJSON* root)
 
     return NOSTR_OK;
 }
+
+nostr_error_t relay_json_event(const cJSON* root, nostr_event** event)
+{
+    nostr_event* parsed = NULL;
+    nostr_error_t err = nostr_event_create(&parsed);
+    if (err == NOSTR_OK) {
+        err = fill_event_from_json(parsed, root);
+        if (err != NOSTR_OK) {
+            nostr_event_destroy(parsed);
+        } else {
+            *event = parsed;
+        }
+    }
+    return err;
+}
 #endif
 
 nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
@@ -639,16 +655,7 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
         return NOSTR_ERR_JSON_PARSE;
     }
 
-    nostr_event* parsed = NULL;
-    nostr_error_t err = nostr_event_create(&parsed);
-    if (err == NOSTR_OK) {
-        err = fill_event_from_json(parsed, root);
-        if (err != NOSTR_OK) {
-            nostr_event_destroy(parsed);
-        } else {
-            *event = parsed;
-        }
-    }
+    nostr_error_t err = relay_json_event(root, event);
 
     cJSON_Delete(root);
     return err;
diff --git a/src/relay_filter.c b/src/relay_filter.c
index 5de7a6f..4ae0817 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -107,17 +107,11 @@ static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t
     return NOSTR_RELAY_OK;
 }
 
-nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_filter_t* filter)
+nostr_relay_error_t relay_json_filter(const cJSON* root, nostr_filter_t* filter)
 {
-    if (!json || !filter) {
-        return NOSTR_RELAY_ERR_INVALID_JSON;
-    }
-
     memset(filter, 0, sizeof(nostr_filter_t));
 
-    cJSON* root = relay_json_parse(json, json_len);
     if (!cJSON_IsObject(root)) {
-        cJSON_Delete(root);
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
@@ -217,15 +211,31 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         }
     }
 
-    cJSON_Delete(root);
     return NOSTR_RELAY_OK;
 
 cleanup:
-    cJSON_Delete(root);
     nostr_filter_free(filter);
     return err;
 }
 
+nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_filter_t* filter)
+{
+    if (!json || !filter) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
+    memset(filter, 0, sizeof(nostr_filter_t));
+
+    cJSON* root = relay_json_parse(json, json_len);
+    if (!root) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
+    nostr_relay_error_t err = relay_json_filter(root, filter);
+    cJSON_Delete(root);
+    return err;
+}
+
 #else
 
 nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_filter_t* filter)
diff --git a/src/relay_json.h b/src/relay_json.h
index e4b2554..21254ef 100644
--- a/src/relay_json.h
+++ b/src/relay_json.h
@@ -6,6 +6,7 @@
 #ifndef NOSTR_RELAY_JSON_H
 #define NOSTR_RELAY_JSON_H
 
+#include "../include/nostr_relay_protocol.h"
 #include <cjson/cJSON.h>
 #include <stdbool.h>
 #include <stdint.h>
@@ -65,6 +66,10 @@ static inline cJSON* relay_json_parse(const char* json, size_t json_len)
     return root;
 }
 
+/* read parsed values; printing them for another parse would round large numbers */
+nostr_error_t relay_json_event(const cJSON* root, nostr_event** event);
+nostr_relay_error_t relay_json_filter(const cJSON* root, nostr_filter_t* filter);
+
 static inline bool relay_json_integer(const cJSON* item, double min, double max, int64_t* value)
 {
     if (!cJSON_IsNumber(item) || !(item->valuedouble >= min && item->valuedouble <= max)) {
diff --git a/src/relay_message.c b/src/relay_message.c
index 187c9d0..9b3b9cd 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -38,20 +38,7 @@ static nostr_relay_error_t parse_filters(cJSON* root, int start_idx, int arr_siz
     *out_count = 0;
     for (int i = start_idx; i < arr_size; i++) {
         cJSON* filter_json = cJSON_GetArrayItem(root, i);
-        char* filter_str = cJSON_PrintUnformatted(filter_json);
-        if (!filter_str) {
-            for (size_t j = 0; j < *out_count; j++) {
-                nostr_filter_free(&(*out_filters)[j]);
-            }
-            free(*out_filters);
-            *out_filters = NULL;
-            *out_count = 0;
-            return NOSTR_RELAY_ERR_MEMORY;
-        }
-
-        nostr_relay_error_t err = nostr_filter_parse(filter_str, strlen(filter_str),
-                                                      &(*out_filters)[*out_count]);
-        free(filter_str);
+        nostr_relay_error_t err = relay_json_filter(filter_json, &(*out_filters)[*out_count]);
 
         if (err != NOSTR_RELAY_OK) {
             for (size_t j = 0; j < *out_count; j++) {
@@ -118,14 +105,7 @@ nostr_relay_error_t nostr_client_msg_parse(const char* json, size_t json_len, no
         }
 
         cJSON* event_json = cJSON_GetArrayItem(root, 1);
-        char* event_str = cJSON_PrintUnformatted(event_json);
-        if (!event_str) {
-            cJSON_Delete(root);
-            return NOSTR_RELAY_ERR_MEMORY;
-        }
-
-        nostr_error_t err = nostr_event_from_json(event_str, &msg->data.event.event);
-        free(event_str);
+        nostr_error_t err = relay_json_event(event_json, &msg->data.event.event);
 
         if (err != NOSTR_OK) {
             cJSON_Delete(root);
@@ -192,14 +172,7 @@ nostr_relay_error_t nostr_client_msg_parse(const char* json, size_t json_len, no
         }
 
         cJSON* event_json = cJSON_GetArrayItem(root, 1);
-        char* event_str = cJSON_PrintUnformatted(event_json);
-        if (!event_str) {
-            cJSON_Delete(root);
-            return NOSTR_RELAY_ERR_MEMORY;
-        }
-
-        nostr_error_t err = nostr_event_from_json(event_str, &msg->data.auth.event);
-        free(event_str);
+        nostr_error_t err = relay_json_event(event_json, &msg->data.auth.event);
 
         if (err != NOSTR_OK) {
             cJSON_Delete(root);
-- 
2.43.0


From d0d90dddaa19f20cb3037184d3e5109dd91d136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:12 +0000
Subject: [PATCH 41/91] fix: authorize deletion of addressable events with long
 d tags

---
 src/relay_protocol.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index d6008c5..f58c669 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -689,15 +689,14 @@ bool nostr_deletion_authorized_address(const nostr_deletion_request_t* request,
         d_tag = "";
     }
 
-    char target_address[256];
-    int written = snprintf(target_address, sizeof(target_address), "%d:%s:%s",
-                          target_event->kind, target_pubkey, d_tag);
-    if (written < 0 || (size_t)written >= sizeof(target_address)) {
-        return false;
-    }
+    /* the d tag may be of any length, so only the part before it is printed */
+    char prefix[80];
+    size_t prefix_len = (size_t)snprintf(prefix, sizeof(prefix), "%d:%s:",
+                                         target_event->kind, target_pubkey);
 
     for (size_t i = 0; i < request->addresses_count; i++) {
-        if (strcmp(request->addresses[i], target_address) == 0) {
+        if (strncmp(request->addresses[i], prefix, prefix_len) == 0 &&
+            strcmp(request->addresses[i] + prefix_len, d_tag) == 0) {
             return true;
         }
     }
-- 
2.43.0


From efaa2dc72889595b6459deea0331acad64735d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:21 +0000
Subject: [PATCH 42/91] fix: treat an event as expired at its expiration time

---
 src/relay_protocol.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index f58c669..8ac436f 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -280,7 +280,8 @@ bool nostr_event_is_expired(const nostr_event* event, int64_t now)
     if (expiration == 0) {
         return false;
     }
-    return now > expiration;
+    /* NIP-40: expired at that time, not only after it */
+    return now >= expiration;
 }
 
 bool nostr_event_is_expired_now(const nostr_event* event)
-- 
2.43.0


From 988956861502fc82c8b647162d2415b216a691d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:27 +0000
Subject: [PATCH 43/91] fix: relay info setters and free handle aliased and
 owned lists

---
 src/relay_nip11.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/relay_nip11.c b/src/relay_nip11.c
index 46e8e77..2fabd7c 100644
--- a/src/relay_nip11.c
+++ b/src/relay_nip11.c
@@ -46,22 +46,22 @@ nostr_relay_error_t nostr_relay_info_set_nips(nostr_relay_info_t* info, const in
         return NOSTR_RELAY_ERR_MISSING_FIELD;
     }
 
-    free(info->supported_nips);
-    info->supported_nips = NULL;
-    info->supported_nips_count = 0;
-
-    if (count == 0 || !nips) {
-        return NOSTR_RELAY_OK;
-    }
-
-    int32_t* copy = malloc(count * sizeof(int32_t));
-    if (!copy) {
-        return NOSTR_RELAY_ERR_MEMORY;
+    /* nips may be the current list, and a failure leaves that as it is */
+    int32_t* copy = NULL;
+    if (count > 0 && nips) {
+        if (count > SIZE_MAX / sizeof(int32_t)) {
+            return NOSTR_RELAY_ERR_MEMORY;
+        }
+        copy = malloc(count * sizeof(int32_t));
+        if (!copy) {
+            return NOSTR_RELAY_ERR_MEMORY;
+        }
+        memcpy(copy, nips, count * sizeof(int32_t));
     }
 
-    memcpy(copy, nips, count * sizeof(int32_t));
+    free(info->supported_nips);
     info->supported_nips = copy;
-    info->supported_nips_count = count;
+    info->supported_nips_count = copy ? count : 0;
     return NOSTR_RELAY_OK;
 }
 
@@ -98,6 +98,7 @@ void nostr_relay_info_free(nostr_relay_info_t* info)
 
     if (info->fees.admission) {
         for (size_t i = 0; i < info->fees.admission_count; i++) {
+            free(info->fees.admission[i].kinds);
             if (info->fees.admission[i].unit) {
                 free((void*)info->fees.admission[i].unit);
             }
@@ -107,6 +108,7 @@ void nostr_relay_info_free(nostr_relay_info_t* info)
 
     if (info->fees.subscription) {
         for (size_t i = 0; i < info->fees.subscription_count; i++) {
+            free(info->fees.subscription[i].kinds);
             if (info->fees.subscription[i].unit) {
                 free((void*)info->fees.subscription[i].unit);
             }
-- 
2.43.0


From 8a6106ca3c6a5d058e020b931d58c021e6100142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:51 +0000
Subject: [PATCH 44/91] fix: serialize relay information without rounding
 numbers or dropping members

---
 src/relay_nip11.c | 418 ++++++++++++++++++----------------------------
 1 file changed, 165 insertions(+), 253 deletions(-)

diff --git a/src/relay_nip11.c b/src/relay_nip11.c
index 2fabd7c..e671e4d 100644
--- a/src/relay_nip11.c
+++ b/src/relay_nip11.c
@@ -4,6 +4,8 @@
  */
 
 #include "../include/nostr_relay_protocol.h"
+#include <inttypes.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -138,283 +140,137 @@ void nostr_relay_info_free(nostr_relay_info_t* info)
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
-nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitation_t* limitation,
-                                                     char* buf, size_t buf_size, size_t* out_len)
+/* Each helper reports whether the member could be added, so that a document is
+ * never sent with members missing; whole numbers are written digit by digit,
+ * since a double cannot hold all of them. */
+static bool add_raw(cJSON* obj, const char* name, const char* digits)
 {
-    if (!limitation || !buf || buf_size == 0) {
-        return NOSTR_RELAY_ERR_INVALID_JSON;
-    }
-
-    cJSON* obj = cJSON_CreateObject();
-    if (!obj) {
-        return NOSTR_RELAY_ERR_MEMORY;
-    }
-
-    if (limitation->max_message_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_message_length", limitation->max_message_length);
-    }
-    if (limitation->max_subscriptions > 0) {
-        cJSON_AddNumberToObject(obj, "max_subscriptions", limitation->max_subscriptions);
-    }
-    if (limitation->max_filters > 0) {
-        cJSON_AddNumberToObject(obj, "max_filters", limitation->max_filters);
-    }
-    if (limitation->max_limit > 0) {
-        cJSON_AddNumberToObject(obj, "max_limit", limitation->max_limit);
-    }
-    if (limitation->max_subid_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_subid_length", limitation->max_subid_length);
-    }
-    if (limitation->max_event_tags > 0) {
-        cJSON_AddNumberToObject(obj, "max_event_tags", limitation->max_event_tags);
-    }
-    if (limitation->max_content_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_content_length", limitation->max_content_length);
-    }
-    if (limitation->min_pow_difficulty > 0) {
-        cJSON_AddNumberToObject(obj, "min_pow_difficulty", limitation->min_pow_difficulty);
-    }
-    cJSON_AddBoolToObject(obj, "auth_required", limitation->auth_required);
-    cJSON_AddBoolToObject(obj, "payment_required", limitation->payment_required);
-    cJSON_AddBoolToObject(obj, "restricted_writes", limitation->restricted_writes);
-    if (limitation->created_at_lower_limit > 0) {
-        cJSON_AddNumberToObject(obj, "created_at_lower_limit", (double)limitation->created_at_lower_limit);
-    }
-    if (limitation->created_at_upper_limit > 0) {
-        cJSON_AddNumberToObject(obj, "created_at_upper_limit", (double)limitation->created_at_upper_limit);
-    }
-    if (limitation->default_limit > 0) {
-        cJSON_AddNumberToObject(obj, "default_limit", limitation->default_limit);
-    }
-
-    char* json_str = cJSON_PrintUnformatted(obj);
-    cJSON_Delete(obj);
-
-    if (!json_str) {
-        return NOSTR_RELAY_ERR_MEMORY;
-    }
-
-    size_t len = strlen(json_str);
-    if (out_len) *out_len = len;
-
-    if (len >= buf_size) {
-        free(json_str);
-        return NOSTR_RELAY_ERR_BUFFER_TOO_SMALL;
-    }
+    return cJSON_AddRawToObject(obj, name, digits) != NULL;
+}
 
-    memcpy(buf, json_str, len + 1);
-    free(json_str);
-    return NOSTR_RELAY_OK;
+static bool add_int(cJSON* obj, const char* name, int64_t value)
+{
+    char digits[32];
+    snprintf(digits, sizeof(digits), "%" PRId64, value);
+    return add_raw(obj, name, digits);
 }
 
-nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
-                                               char* buf, size_t buf_size, size_t* out_len)
+static bool add_uint(cJSON* obj, const char* name, uint64_t value)
 {
-    if (!info || !buf || buf_size == 0) {
-        return NOSTR_RELAY_ERR_INVALID_JSON;
-    }
+    char digits[32];
+    snprintf(digits, sizeof(digits), "%" PRIu64, value);
+    return add_raw(obj, name, digits);
+}
 
-    cJSON* obj = cJSON_CreateObject();
-    if (!obj) {
-        return NOSTR_RELAY_ERR_MEMORY;
-    }
+static bool add_limit(cJSON* obj, const char* name, int64_t value)
+{
+    return value <= 0 || add_int(obj, name, value);
+}
 
-    if (info->name) {
-        cJSON_AddStringToObject(obj, "name", info->name);
-    }
-    if (info->description) {
-        cJSON_AddStringToObject(obj, "description", info->description);
-    }
-    if (info->banner) {
-        cJSON_AddStringToObject(obj, "banner", info->banner);
-    }
-    if (info->icon) {
-        cJSON_AddStringToObject(obj, "icon", info->icon);
-    }
-    if (info->pubkey) {
-        cJSON_AddStringToObject(obj, "pubkey", info->pubkey);
-    }
-    if (info->self_pubkey) {
-        cJSON_AddStringToObject(obj, "self", info->self_pubkey);
-    }
-    if (info->contact) {
-        cJSON_AddStringToObject(obj, "contact", info->contact);
-    }
+static bool add_string(cJSON* obj, const char* name, const char* value)
+{
+    return !value || cJSON_AddStringToObject(obj, name, value) != NULL;
+}
 
-    cJSON* nips_arr = cJSON_CreateArray();
-    if (!nips_arr) {
-        cJSON_Delete(obj);
-        return NOSTR_RELAY_ERR_MEMORY;
-    }
-    for (size_t i = 0; i < info->supported_nips_count; i++) {
-        cJSON_AddItemToArray(nips_arr, cJSON_CreateNumber(info->supported_nips[i]));
+static bool add_item(cJSON* array, cJSON* item)
+{
+    if (item && cJSON_AddItemToArray(array, item)) {
+        return true;
     }
-    cJSON_AddItemToObject(obj, "supported_nips", nips_arr);
+    cJSON_Delete(item);
+    return false;
+}
 
-    if (info->software) {
-        cJSON_AddStringToObject(obj, "software", info->software);
-    }
-    if (info->version) {
-        cJSON_AddStringToObject(obj, "version", info->version);
-    }
-    if (info->privacy_policy) {
-        cJSON_AddStringToObject(obj, "privacy_policy", info->privacy_policy);
-    }
-    if (info->terms_of_service) {
-        cJSON_AddStringToObject(obj, "terms_of_service", info->terms_of_service);
+static bool add_ints(cJSON* obj, const char* name, const int32_t* values, size_t count)
+{
+    cJSON* array = cJSON_AddArrayToObject(obj, name);
+    bool ok = array != NULL;
+    for (size_t i = 0; ok && i < count; i++) {
+        ok = add_item(array, cJSON_CreateNumber(values[i]));
     }
+    return ok;
+}
 
-    cJSON* limitation_obj = cJSON_CreateObject();
-    if (info->limitation.max_message_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_message_length", info->limitation.max_message_length);
-    }
-    if (info->limitation.max_subscriptions > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_subscriptions", info->limitation.max_subscriptions);
-    }
-    if (info->limitation.max_filters > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_filters", info->limitation.max_filters);
-    }
-    if (info->limitation.max_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_limit", info->limitation.max_limit);
-    }
-    if (info->limitation.max_subid_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_subid_length", info->limitation.max_subid_length);
-    }
-    if (info->limitation.max_event_tags > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_event_tags", info->limitation.max_event_tags);
-    }
-    if (info->limitation.max_content_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_content_length", info->limitation.max_content_length);
-    }
-    if (info->limitation.min_pow_difficulty > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "min_pow_difficulty", info->limitation.min_pow_difficulty);
-    }
-    cJSON_AddBoolToObject(limitation_obj, "auth_required", info->limitation.auth_required);
-    cJSON_AddBoolToObject(limitation_obj, "payment_required", info->limitation.payment_required);
-    cJSON_AddBoolToObject(limitation_obj, "restricted_writes", info->limitation.restricted_writes);
-    if (info->limitation.created_at_lower_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "created_at_lower_limit", (double)info->limitation.created_at_lower_limit);
-    }
-    if (info->limitation.created_at_upper_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "created_at_upper_limit", (double)info->limitation.created_at_upper_limit);
-    }
-    if (info->limitation.default_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "default_limit", info->limitation.default_limit);
+static bool add_strings(cJSON* obj, const char* name, const char** values, size_t count)
+{
+    if (count == 0 || !values) {
+        return true;
     }
-    cJSON_AddItemToObject(obj, "limitation", limitation_obj);
-
-    if (info->retention_count > 0 && info->retention) {
-        cJSON* retention_arr = cJSON_CreateArray();
-        for (size_t i = 0; i < info->retention_count; i++) {
-            cJSON* ret_obj = cJSON_CreateObject();
-            if (info->retention[i].kinds_count > 0) {
-                cJSON* kinds_arr = cJSON_CreateArray();
-                for (size_t j = 0; j < info->retention[i].kinds_count; j++) {
-                    cJSON_AddItemToArray(kinds_arr, cJSON_CreateNumber(info->retention[i].kinds[j]));
-                }
-                cJSON_AddItemToObject(ret_obj, "kinds", kinds_arr);
-            }
-            if (info->retention[i].time != 0) {
-                cJSON_AddNumberToObject(ret_obj, "time", (double)info->retention[i].time);
-            }
-            if (info->retention[i].count > 0) {
-                cJSON_AddNumberToObject(ret_obj, "count", info->retention[i].count);
-            }
-            cJSON_AddItemToArray(retention_arr, ret_obj);
-        }
-        cJSON_AddItemToObject(obj, "retention", retention_arr);
+    cJSON* array = cJSON_AddArrayToObject(obj, name);
+    bool ok = array != NULL;
+    for (size_t i = 0; ok && i < count; i++) {
+        ok = !values[i] || add_item(array, cJSON_CreateString(values[i]));
     }
+    return ok;
+}
 
-    if (info->relay_countries_count > 0 && info->relay_countries) {
-        cJSON* countries_arr = cJSON_CreateArray();
-        for (size_t i = 0; i < info->relay_countries_count; i++) {
-            cJSON_AddItemToArray(countries_arr, cJSON_CreateString(info->relay_countries[i]));
-        }
-        cJSON_AddItemToObject(obj, "relay_countries", countries_arr);
-    }
+static bool add_limitation(cJSON* obj, const nostr_relay_limitation_t* limitation)
+{
+    return add_limit(obj, "max_message_length", limitation->max_message_length) &&
+           add_limit(obj, "max_subscriptions", limitation->max_subscriptions) &&
+           add_limit(obj, "max_filters", limitation->max_filters) &&
+           add_limit(obj, "max_limit", limitation->max_limit) &&
+           add_limit(obj, "max_subid_length", limitation->max_subid_length) &&
+           add_limit(obj, "max_event_tags", limitation->max_event_tags) &&
+           add_limit(obj, "max_content_length", limitation->max_content_length) &&
+           add_limit(obj, "min_pow_difficulty", limitation->min_pow_difficulty) &&
+           cJSON_AddBoolToObject(obj, "auth_required", limitation->auth_required) &&
+           cJSON_AddBoolToObject(obj, "payment_required", limitation->payment_required) &&
+           cJSON_AddBoolToObject(obj, "restricted_writes", limitation->restricted_writes) &&
+           add_limit(obj, "created_at_lower_limit", limitation->created_at_lower_limit) &&
+           add_limit(obj, "created_at_upper_limit", limitation->created_at_upper_limit) &&
+           add_limit(obj, "default_limit", limitation->default_limit);
+}
 
-    if (info->language_tags_count > 0 && info->language_tags) {
-        cJSON* langs_arr = cJSON_CreateArray();
-        for (size_t i = 0; i < info->language_tags_count; i++) {
-            cJSON_AddItemToArray(langs_arr, cJSON_CreateString(info->language_tags[i]));
+static bool add_retention(cJSON* obj, const nostr_relay_info_t* info)
+{
+    if (info->retention_count == 0 || !info->retention) {
+        return true;
+    }
+    cJSON* array = cJSON_AddArrayToObject(obj, "retention");
+    bool ok = array != NULL;
+    for (size_t i = 0; ok && i < info->retention_count; i++) {
+        const nostr_relay_retention_t* retention = &info->retention[i];
+        cJSON* item = cJSON_CreateObject();
+        ok = add_item(array, item);
+        if (ok && retention->kinds_count > 0 && retention->kinds) {
+            ok = add_ints(item, "kinds", retention->kinds, retention->kinds_count);
         }
-        cJSON_AddItemToObject(obj, "language_tags", langs_arr);
-    }
-
-    if (info->tags_count > 0 && info->tags) {
-        cJSON* tags_arr = cJSON_CreateArray();
-        for (size_t i = 0; i < info->tags_count; i++) {
-            cJSON_AddItemToArray(tags_arr, cJSON_CreateString(info->tags[i]));
+        if (ok && retention->time != 0) {
+            ok = add_int(item, "time", retention->time);
         }
-        cJSON_AddItemToObject(obj, "tags", tags_arr);
-    }
-
-    if (info->posting_policy) {
-        cJSON_AddStringToObject(obj, "posting_policy", info->posting_policy);
-    }
-    if (info->payments_url) {
-        cJSON_AddStringToObject(obj, "payments_url", info->payments_url);
+        ok = ok && add_limit(item, "count", retention->count);
     }
+    return ok;
+}
 
-    bool has_fees = (info->fees.admission_count > 0 ||
-                     info->fees.subscription_count > 0 ||
-                     info->fees.publication_count > 0);
-    if (has_fees) {
-        cJSON* fees_obj = cJSON_CreateObject();
-
-        if (info->fees.admission_count > 0 && info->fees.admission) {
-            cJSON* admission_arr = cJSON_CreateArray();
-            for (size_t i = 0; i < info->fees.admission_count; i++) {
-                cJSON* fee_obj = cJSON_CreateObject();
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.admission[i].amount);
-                if (info->fees.admission[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.admission[i].unit);
-                }
-                cJSON_AddItemToArray(admission_arr, fee_obj);
-            }
-            cJSON_AddItemToObject(fees_obj, "admission", admission_arr);
-        }
-
-        if (info->fees.subscription_count > 0 && info->fees.subscription) {
-            cJSON* sub_arr = cJSON_CreateArray();
-            for (size_t i = 0; i < info->fees.subscription_count; i++) {
-                cJSON* fee_obj = cJSON_CreateObject();
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.subscription[i].amount);
-                if (info->fees.subscription[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.subscription[i].unit);
-                }
-                if (info->fees.subscription[i].period > 0) {
-                    cJSON_AddNumberToObject(fee_obj, "period", info->fees.subscription[i].period);
-                }
-                cJSON_AddItemToArray(sub_arr, fee_obj);
-            }
-            cJSON_AddItemToObject(fees_obj, "subscription", sub_arr);
+static bool add_fees(cJSON* obj, const char* name, const nostr_relay_fee_t* fees, size_t count,
+                     bool with_period, bool with_kinds)
+{
+    if (count == 0 || !fees) {
+        return true;
+    }
+    cJSON* array = cJSON_AddArrayToObject(obj, name);
+    bool ok = array != NULL;
+    for (size_t i = 0; ok && i < count; i++) {
+        cJSON* item = cJSON_CreateObject();
+        ok = add_item(array, item);
+        if (ok && with_kinds && fees[i].kinds_count > 0 && fees[i].kinds) {
+            ok = add_ints(item, "kinds", fees[i].kinds, fees[i].kinds_count);
         }
-
-        if (info->fees.publication_count > 0 && info->fees.publication) {
-            cJSON* pub_arr = cJSON_CreateArray();
-            for (size_t i = 0; i < info->fees.publication_count; i++) {
-                cJSON* fee_obj = cJSON_CreateObject();
-                if (info->fees.publication[i].kinds_count > 0 && info->fees.publication[i].kinds) {
-                    cJSON* kinds_arr = cJSON_CreateArray();
-                    for (size_t j = 0; j < info->fees.publication[i].kinds_count; j++) {
-                        cJSON_AddItemToArray(kinds_arr, cJSON_CreateNumber(info->fees.publication[i].kinds[j]));
-                    }
-                    cJSON_AddItemToObject(fee_obj, "kinds", kinds_arr);
-                }
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.publication[i].amount);
-                if (info->fees.publication[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.publication[i].unit);
-                }
-                cJSON_AddItemToArray(pub_arr, fee_obj);
-            }
-            cJSON_AddItemToObject(fees_obj, "publication", pub_arr);
+        ok = ok && add_uint(item, "amount", fees[i].amount) &&
+             add_string(item, "unit", fees[i].unit);
+        if (ok && with_period) {
+            ok = add_limit(item, "period", fees[i].period);
         }
-
-        cJSON_AddItemToObject(obj, "fees", fees_obj);
     }
+    return ok;
+}
 
-    char* json_str = cJSON_PrintUnformatted(obj);
+/* prints and releases obj, which is complete only if ok */
+static nostr_relay_error_t print_object(cJSON* obj, bool ok, char* buf, size_t buf_size, size_t* out_len)
+{
+    char* json_str = ok ? cJSON_PrintUnformatted(obj) : NULL;
     cJSON_Delete(obj);
 
     if (!json_str) {
@@ -434,6 +290,62 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
     return NOSTR_RELAY_OK;
 }
 
+nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitation_t* limitation,
+                                                     char* buf, size_t buf_size, size_t* out_len)
+{
+    if (!limitation || !buf || buf_size == 0) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
+    cJSON* obj = cJSON_CreateObject();
+    bool ok = obj && add_limitation(obj, limitation);
+
+    return print_object(obj, ok, buf, buf_size, out_len);
+}
+
+nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
+                                               char* buf, size_t buf_size, size_t* out_len)
+{
+    if (!info || !buf || buf_size == 0) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
+    cJSON* obj = cJSON_CreateObject();
+    bool ok = obj &&
+              add_string(obj, "name", info->name) &&
+              add_string(obj, "description", info->description) &&
+              add_string(obj, "banner", info->banner) &&
+              add_string(obj, "icon", info->icon) &&
+              add_string(obj, "pubkey", info->pubkey) &&
+              add_string(obj, "self", info->self_pubkey) &&
+              add_string(obj, "contact", info->contact) &&
+              add_ints(obj, "supported_nips", info->supported_nips, info->supported_nips_count) &&
+              add_string(obj, "software", info->software) &&
+              add_string(obj, "version", info->version) &&
+              add_string(obj, "privacy_policy", info->privacy_policy) &&
+              add_string(obj, "terms_of_service", info->terms_of_service);
+
+    cJSON* limitation_obj = ok ? cJSON_AddObjectToObject(obj, "limitation") : NULL;
+    ok = limitation_obj && add_limitation(limitation_obj, &info->limitation) &&
+         add_retention(obj, info) &&
+         add_strings(obj, "relay_countries", info->relay_countries, info->relay_countries_count) &&
+         add_strings(obj, "language_tags", info->language_tags, info->language_tags_count) &&
+         add_strings(obj, "tags", info->tags, info->tags_count) &&
+         add_string(obj, "posting_policy", info->posting_policy) &&
+         add_string(obj, "payments_url", info->payments_url);
+
+    const nostr_relay_fees_t* fees = &info->fees;
+    if (ok && (fees->admission_count > 0 || fees->subscription_count > 0 || fees->publication_count > 0)) {
+        cJSON* fees_obj = cJSON_AddObjectToObject(obj, "fees");
+        ok = fees_obj &&
+             add_fees(fees_obj, "admission", fees->admission, fees->admission_count, false, false) &&
+             add_fees(fees_obj, "subscription", fees->subscription, fees->subscription_count, true, false) &&
+             add_fees(fees_obj, "publication", fees->publication, fees->publication_count, false, true);
+    }
+
+    return print_object(obj, ok, buf, buf_size, out_len);
+}
+
 #else
 
 nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitation_t* limitation,
-- 
2.43.0


From 835712f8ccdf1808cbeb4849e7537c8b984bec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 45/91] fix: report closed relay connections, stop using their
 freed socket, and lock what the service thread shares

---
 src/relay.c | 301 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 186 insertions(+), 115 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 2d08bd8..f8164b5 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -74,9 +74,16 @@ typedef struct {
     pthread_mutex_t queue_mutex;
     pthread_t service_thread;
 #endif
-    volatile bool service_running;
+#ifdef _WIN32
+    DWORD service_id;
+#else
+    pthread_t service_id;
+#endif
+    bool service_id_known;
+    bool service_running;
     bool service_thread_created;
 #endif
+    bool busy;
     bool reconnect_enabled;
     int reconnect_interval;
     time_t last_connect_attempt;
@@ -86,24 +93,13 @@ typedef struct {
     size_t buffer_pos;
 } relay_context;
 
-#ifdef NOSTR_FEATURE_THREADING
-#ifdef _WIN32
-static DWORD WINAPI service_thread_func(LPVOID arg) {
-#else
-static void* service_thread_func(void* arg) {
-#endif
-    relay_context* ctx = (relay_context*)arg;
-    while (ctx->service_running) {
-        struct lws_context* context = ctx->context;
-        if (!context) break;
-        lws_service(context, 50);
-    }
-#ifdef _WIN32
-    return 0;
+/* the service thread sets the state while the owner reads it */
+#ifdef __GNUC__
+#define get_state(relay) __atomic_load_n(&(relay)->state, __ATOMIC_ACQUIRE)
+#define set_state(relay, value) __atomic_store_n(&(relay)->state, (value), __ATOMIC_RELEASE)
 #else
-    return NULL;
-#endif
-}
+#define get_state(relay) (*(volatile nostr_relay_state*)&(relay)->state)
+#define set_state(relay, value) (*(volatile nostr_relay_state*)&(relay)->state = (value))
 #endif
 
 static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reason,
@@ -153,11 +149,102 @@ static void lock_queue_mutex(relay_context* ctx) { (void)ctx; }
 static void unlock_queue_mutex(relay_context* ctx) { (void)ctx; }
 #endif
 
+#ifdef NOSTR_FEATURE_THREADING
+#ifdef _WIN32
+static DWORD WINAPI service_thread_func(LPVOID arg) {
+#else
+static void* service_thread_func(void* arg) {
+#endif
+    relay_context* ctx = (relay_context*)arg;
+    lock_queue_mutex(ctx);
+#ifdef _WIN32
+    ctx->service_id = GetCurrentThreadId();
+#else
+    ctx->service_id = pthread_self();
+#endif
+    ctx->service_id_known = true;
+    while (ctx->service_running) {
+        unlock_queue_mutex(ctx);
+        lws_service(ctx->context, 50);
+        lock_queue_mutex(ctx);
+    }
+    unlock_queue_mutex(ctx);
+#ifdef _WIN32
+    return 0;
+#else
+    return NULL;
+#endif
+}
+#endif
+
+/* a connection cannot be taken down from inside its own callbacks; needs the queue mutex */
+static bool inside_callback(relay_context* ctx) {
+#ifdef NOSTR_FEATURE_THREADING
+    if (ctx->service_id_known &&
+#ifdef _WIN32
+        ctx->service_id == GetCurrentThreadId()
+#else
+        pthread_equal(ctx->service_id, pthread_self())
+#endif
+    ) {
+        return true;
+    }
+#endif
+    return ctx->busy;
+}
+
 static struct lws_protocols protocols[] = {
     { "nostr-protocol", callback_nostr_relay, sizeof(relay_context), 65536 },
     { NULL, NULL, 0, 0 }
 };
 
+static nostr_error_t open_connection(nostr_relay* relay, relay_context* ctx) {
+    struct lws_client_connect_info ccinfo;
+    memset(&ccinfo, 0, sizeof(ccinfo));
+    ccinfo.context = ctx->context;
+    ccinfo.port = 443;
+    ccinfo.ssl_connection = LCCSCF_USE_SSL;
+    
+    char* url_copy = strdup(relay->url);
+    if (!url_copy) {
+        return NOSTR_ERR_MEMORY;
+    }
+    if (strncmp(url_copy, "wss://", 6) == 0) {
+        ccinfo.address = url_copy + 6;
+        ccinfo.ssl_connection = LCCSCF_USE_SSL;
+    } else if (strncmp(url_copy, "ws://", 5) == 0) {
+        ccinfo.address = url_copy + 5;
+        ccinfo.port = 80;
+        ccinfo.ssl_connection = 0;
+    } else {
+        free(url_copy);
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+    
+    char* path = strchr(ccinfo.address, '/');
+    if (path) {
+        *path = '\0';
+        ccinfo.path = path + 1;
+    } else {
+        ccinfo.path = "/";
+    }
+    
+    ccinfo.host = ccinfo.address;
+    ccinfo.origin = ccinfo.address;
+    ccinfo.protocol = protocols[0].name;
+
+    struct lws* wsi = lws_client_connect_via_info(&ccinfo);
+    if (wsi) {
+        lws_set_opaque_user_data(wsi, relay);
+        lock_queue_mutex(ctx);
+        ctx->wsi = wsi;
+        unlock_queue_mutex(ctx);
+    }
+    free(url_copy);
+
+    return wsi ? NOSTR_OK : NOSTR_ERR_CONNECTION;
+}
+
 nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
     if (!relay || !url) {
         return NOSTR_ERR_INVALID_PARAM;
@@ -186,8 +273,9 @@ nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
 void nostr_relay_destroy(nostr_relay* relay) {
     if (!relay) return;
 
-    if (relay->state == NOSTR_RELAY_CONNECTED || relay->state == NOSTR_RELAY_CONNECTING) {
-        nostr_relay_disconnect(relay);
+    /* a connection the relay closed still has its thread and context */
+    if (relay->ws_handle && nostr_relay_disconnect(relay) != NOSTR_OK) {
+        return;
     }
 
     free(relay->url);
@@ -199,10 +287,18 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (relay->state == NOSTR_RELAY_CONNECTED || relay->state == NOSTR_RELAY_CONNECTING) {
+    nostr_relay_state state = get_state(relay);
+    if (state == NOSTR_RELAY_CONNECTED || state == NOSTR_RELAY_CONNECTING) {
         return NOSTR_ERR_CONNECTION;
     }
 
+    if (relay->ws_handle) {
+        nostr_error_t err = nostr_relay_disconnect(relay);
+        if (err != NOSTR_OK) {
+            return err;
+        }
+    }
+
     struct lws_context_creation_info info;
     memset(&info, 0, sizeof(info));
     info.port = CONTEXT_PORT_NO_LISTEN;
@@ -216,41 +312,8 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         return NOSTR_ERR_CONNECTION;
     }
 
-    struct lws_client_connect_info ccinfo;
-    memset(&ccinfo, 0, sizeof(ccinfo));
-    ccinfo.context = context;
-    ccinfo.port = 443;
-    ccinfo.ssl_connection = LCCSCF_USE_SSL;
-    
-    char* url_copy = strdup(relay->url);
-    if (strncmp(url_copy, "wss://", 6) == 0) {
-        ccinfo.address = url_copy + 6;
-        ccinfo.ssl_connection = LCCSCF_USE_SSL;
-    } else if (strncmp(url_copy, "ws://", 5) == 0) {
-        ccinfo.address = url_copy + 5;
-        ccinfo.port = 80;
-        ccinfo.ssl_connection = 0;
-    } else {
-        free(url_copy);
-        lws_context_destroy(context);
-        return NOSTR_ERR_INVALID_PARAM;
-    }
-    
-    char* path = strchr(ccinfo.address, '/');
-    if (path) {
-        *path = '\0';
-        ccinfo.path = path + 1;
-    } else {
-        ccinfo.path = "/";
-    }
-    
-    ccinfo.host = ccinfo.address;
-    ccinfo.origin = ccinfo.address;
-    ccinfo.protocol = protocols[0].name;
-
     relay_context* ctx = calloc(1, sizeof(relay_context));
     if (!ctx) {
-        free(url_copy);
         lws_context_destroy(context);
         return NOSTR_ERR_MEMORY;
     }
@@ -268,60 +331,48 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     ctx->message_callback = relay->message_callback;
     ctx->message_user_data = relay->message_user_data;
     if (init_queue_mutex(ctx) != 0) {
-        free(url_copy);
         free(ctx);
         lws_context_destroy(context);
-        relay->state = NOSTR_RELAY_ERROR;
+        set_state(relay, NOSTR_RELAY_ERROR);
         return NOSTR_ERR_MEMORY;
     }
-    
-    relay->ws_handle = ctx;
-    relay->state = NOSTR_RELAY_CONNECTING;
-    
-    struct lws* wsi = lws_client_connect_via_info(&ccinfo);
-    if (!wsi) {
-        free(url_copy);
-        free(ctx);
+
+    nostr_error_t err = open_connection(relay, ctx);
+    if (err != NOSTR_OK) {
         lws_context_destroy(context);
-        relay->state = NOSTR_RELAY_ERROR;
-        return NOSTR_ERR_CONNECTION;
+        destroy_queue_mutex(ctx);
+        free(ctx);
+        if (err != NOSTR_ERR_INVALID_PARAM) {
+            set_state(relay, NOSTR_RELAY_ERROR);
+        }
+        return err;
     }
-    
-    ctx->wsi = wsi;
-    lws_set_opaque_user_data(wsi, relay);
-    free(url_copy);
+
+    /* reported before the service thread can report anything else */
+    relay->ws_handle = ctx;
+    set_state(relay, NOSTR_RELAY_CONNECTING);
+    ctx->busy = true;
+    callback(relay, NOSTR_RELAY_CONNECTING, user_data);
+    ctx->busy = false;
 
 #ifdef NOSTR_FEATURE_THREADING
     ctx->service_running = true;
-    ctx->service_thread_created = false;
 #ifdef _WIN32
     ctx->service_thread = CreateThread(NULL, 0, service_thread_func, ctx, 0, NULL);
-    if (!ctx->service_thread) {
-        ctx->service_running = false;
-        destroy_queue_mutex(ctx);
-        relay->ws_handle = NULL;
-        lws_context_destroy(context);
-        free(ctx);
-        relay->state = NOSTR_RELAY_ERROR;
-        return NOSTR_ERR_MEMORY;
-    }
+    ctx->service_thread_created = ctx->service_thread != NULL;
 #else
-    if (pthread_create(&ctx->service_thread, NULL, service_thread_func, ctx) != 0) {
-        ctx->service_running = false;
-        destroy_queue_mutex(ctx);
+    ctx->service_thread_created = pthread_create(&ctx->service_thread, NULL, service_thread_func, ctx) == 0;
+#endif
+    if (!ctx->service_thread_created) {
         relay->ws_handle = NULL;
         lws_context_destroy(context);
+        destroy_queue_mutex(ctx);
         free(ctx);
-        relay->state = NOSTR_RELAY_ERROR;
+        set_state(relay, NOSTR_RELAY_ERROR);
+        callback(relay, NOSTR_RELAY_ERROR, user_data);
         return NOSTR_ERR_MEMORY;
     }
 #endif
-    ctx->service_thread_created = true;
-#endif
-
-    if (callback) {
-        callback(relay, NOSTR_RELAY_CONNECTING, user_data);
-    }
 
     return NOSTR_OK;
 }
@@ -332,14 +383,22 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
     }
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
-    ctx->reconnect_enabled = false;
-
-    struct lws_context* context_to_destroy = ctx->context;
-    ctx->context = NULL;
 
+    lock_queue_mutex(ctx);
+    if (inside_callback(ctx)) {
+        unlock_queue_mutex(ctx);
+        return NOSTR_ERR_CONNECTION;
+    }
+    ctx->busy = true;
+    ctx->reconnect_enabled = false;
 #ifdef NOSTR_FEATURE_THREADING
     ctx->service_running = false;
+#endif
+    unlock_queue_mutex(ctx);
+
+#ifdef NOSTR_FEATURE_THREADING
     if (ctx->service_thread_created) {
+        lws_cancel_service(ctx->context);
 #ifdef _WIN32
         WaitForSingleObject(ctx->service_thread, INFINITE);
         CloseHandle(ctx->service_thread);
@@ -350,14 +409,11 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
     }
 #endif
 
-    if (ctx->wsi && relay->state == NOSTR_RELAY_CONNECTED) {
+    if (ctx->wsi && get_state(relay) == NOSTR_RELAY_CONNECTED) {
         lws_close_reason(ctx->wsi, LWS_CLOSE_STATUS_NORMAL, NULL, 0);
     }
 
-    if (context_to_destroy) {
-        lws_context_destroy(context_to_destroy);
-    }
-    
+    lws_context_destroy(ctx->context);
     destroy_queue_mutex(ctx);
     
     while (ctx->subscriptions) {
@@ -372,13 +428,13 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
     free(ctx);
     
     relay->ws_handle = NULL;
-    relay->state = NOSTR_RELAY_DISCONNECTED;
+    set_state(relay, NOSTR_RELAY_DISCONNECTED);
 
     return NOSTR_OK;
 }
 
 nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* event) {
-    if (!relay || !event || relay->state != NOSTR_RELAY_CONNECTED) {
+    if (!relay || !event || get_state(relay) != NOSTR_RELAY_CONNECTED) {
         return NOSTR_ERR_INVALID_PARAM;
     }
 
@@ -389,7 +445,7 @@ nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* even
     }
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
-    if (!ctx || !ctx->wsi) {
+    if (!ctx) {
         free(json);
         return NOSTR_ERR_CONNECTION;
     }
@@ -413,7 +469,7 @@ nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* even
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
     free(msg);
@@ -425,7 +481,7 @@ nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* even
 
 nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id, 
                              const char* filters_json, nostr_event_callback callback, void* user_data) {
-    if (!relay || !subscription_id || !filters_json || relay->state != NOSTR_RELAY_CONNECTED) {
+    if (!relay || !subscription_id || !filters_json || get_state(relay) != NOSTR_RELAY_CONNECTED) {
         return NOSTR_ERR_INVALID_PARAM;
     }
 
@@ -434,7 +490,7 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     }
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
-    if (!ctx || !ctx->wsi) {
+    if (!ctx) {
         return NOSTR_ERR_CONNECTION;
     }
 
@@ -475,7 +531,7 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
     free(msg);
@@ -498,15 +554,17 @@ nostr_error_t nostr_relay_set_message_callback(nostr_relay* relay, nostr_message
     
     if (relay->ws_handle) {
         relay_context* ctx = (relay_context*)relay->ws_handle;
+        lock_queue_mutex(ctx);
         ctx->message_callback = callback;
         ctx->message_user_data = user_data;
+        unlock_queue_mutex(ctx);
     }
     
     return NOSTR_OK;
 }
 
 nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscription_id) {
-    if (!relay || !subscription_id || relay->state != NOSTR_RELAY_CONNECTED) {
+    if (!relay || !subscription_id || get_state(relay) != NOSTR_RELAY_CONNECTED) {
         return NOSTR_ERR_INVALID_PARAM;
     }
 
@@ -515,7 +573,7 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     }
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
-    if (!ctx || !ctx->wsi) {
+    if (!ctx) {
         return NOSTR_ERR_CONNECTION;
     }
 
@@ -548,7 +606,7 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
     free(msg);
@@ -565,7 +623,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
     switch (reason) {
         case LWS_CALLBACK_CLIENT_ESTABLISHED:
             if (relay && ctx) {
-                relay->state = NOSTR_RELAY_CONNECTED;
+                set_state(relay, NOSTR_RELAY_CONNECTED);
                 if (ctx->state_callback) {
                     ctx->state_callback(relay, NOSTR_RELAY_CONNECTED, ctx->user_data);
                 }
@@ -706,21 +764,34 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
             break;
             
         case LWS_CALLBACK_CLIENT_CONNECTION_ERROR:
-        case LWS_CALLBACK_CLOSED:
-            if (relay && ctx) {
-                relay->state = NOSTR_RELAY_DISCONNECTED;
+        case LWS_CALLBACK_CLIENT_CLOSED:
+            if (relay && ctx && ctx->wsi == wsi) {
+                /* the connection is freed when this returns */
+                lock_queue_mutex(ctx);
+                ctx->wsi = NULL;
+                bool reconnect = ctx->reconnect_enabled;
+                unlock_queue_mutex(ctx);
+                ctx->buffer_pos = 0;
+
+                set_state(relay, NOSTR_RELAY_DISCONNECTED);
                 if (ctx->state_callback) {
                     ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
                 }
                 
-                if (ctx->reconnect_enabled) {
+                if (reconnect) {
                     time_t now = time(NULL);
                     if (now - ctx->last_connect_attempt >= ctx->reconnect_interval) {
                         ctx->last_connect_attempt = now;
-                        relay->state = NOSTR_RELAY_CONNECTING;
+                        set_state(relay, NOSTR_RELAY_CONNECTING);
                         if (ctx->state_callback) {
                             ctx->state_callback(relay, NOSTR_RELAY_CONNECTING, ctx->user_data);
                         }
+                        if (open_connection(relay, ctx) != NOSTR_OK) {
+                            set_state(relay, NOSTR_RELAY_DISCONNECTED);
+                            if (ctx->state_callback) {
+                                ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
+                            }
+                        }
                     }
                 }
             }
-- 
2.43.0


From 311c4ad7aa1c9b5ee756b7262603e84e04da4d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:38 +0000
Subject: [PATCH 46/91] fix: connect to the port a relay URL names

---
 src/relay.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/relay.c b/src/relay.c
index f8164b5..f1df7dc 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -233,6 +233,25 @@ static nostr_error_t open_connection(nostr_relay* relay, relay_context* ctx) {
     ccinfo.origin = ccinfo.address;
     ccinfo.protocol = protocols[0].name;
 
+    char* host = NULL;
+    const char* port = strrchr(ccinfo.address, ':');
+    if (port && !strchr(port, ']')) {
+        ccinfo.port = 0;
+        for (const char* p = port + 1; *p && ccinfo.port <= 65535; p++) {
+            ccinfo.port = (*p >= '0' && *p <= '9') ? ccinfo.port * 10 + (*p - '0') : 65536;
+        }
+        if (ccinfo.port < 1 || ccinfo.port > 65535) {
+            free(url_copy);
+            return NOSTR_ERR_INVALID_PARAM;
+        }
+        host = strndup(ccinfo.address, port - ccinfo.address);
+        if (!host) {
+            free(url_copy);
+            return NOSTR_ERR_MEMORY;
+        }
+        ccinfo.address = host;
+    }
+
     struct lws* wsi = lws_client_connect_via_info(&ccinfo);
     if (wsi) {
         lws_set_opaque_user_data(wsi, relay);
@@ -240,6 +259,7 @@ static nostr_error_t open_connection(nostr_relay* relay, relay_context* ctx) {
         ctx->wsi = wsi;
         unlock_queue_mutex(ctx);
     }
+    free(host);
     free(url_copy);
 
     return wsi ? NOSTR_OK : NOSTR_ERR_CONNECTION;
-- 
2.43.0


From a527ff4d2070bb401abd6c07baa54f0bf1aed567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:09 +0000
Subject: [PATCH 47/91] fix: read relay messages whole, deliver them unaltered,
 and never stall on malformed data

---
 src/relay.c | 243 ++++++++++++++++++++++++++--------------------------
 1 file changed, 122 insertions(+), 121 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index f1df7dc..de19dfa 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -1,4 +1,5 @@
 #include "nostr.h"
+#include "relay_json.h"
 #include <libwebsockets.h>
 #include <string.h>
 #include <stdlib.h>
@@ -91,6 +92,7 @@ typedef struct {
     char* receive_buffer;
     size_t buffer_size;
     size_t buffer_pos;
+    bool discarding;
 } relay_context;
 
 /* the service thread sets the state while the owner reads it */
@@ -635,6 +637,102 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
 }
 
+static void remove_subscription(relay_context* ctx, const char* id) {
+    lock_queue_mutex(ctx);
+    subscription_t** sub_ptr = &ctx->subscriptions;
+    while (*sub_ptr) {
+        if (strcmp((*sub_ptr)->id, id) == 0) {
+            subscription_t* to_remove = *sub_ptr;
+            *sub_ptr = to_remove->next;
+            free(to_remove->id);
+            free(to_remove);
+            break;
+        }
+        sub_ptr = &(*sub_ptr)->next;
+    }
+    unlock_queue_mutex(ctx);
+}
+
+static void deliver_event(relay_context* ctx, const char* id, const cJSON* event_json) {
+    nostr_event_callback callback = NULL;
+    void* user_data = NULL;
+
+    lock_queue_mutex(ctx);
+    for (subscription_t* sub = ctx->subscriptions; sub; sub = sub->next) {
+        if (strcmp(sub->id, id) == 0) {
+            callback = sub->callback;
+            user_data = sub->user_data;
+            break;
+        }
+    }
+    unlock_queue_mutex(ctx);
+
+    nostr_event* event;
+    if (callback && relay_json_event(event_json, &event) == NOSTR_OK) {
+        callback(event, user_data);
+        nostr_event_destroy(event);
+    }
+}
+
+/* the texts may have been cut short where the JSON escapes U+0000 */
+static bool type_has_nul_escape(const char* text) {
+    const char* end = strchr(text, '"') + 1;
+    while (*end != '"') {
+        end += (*end == '\\') ? 2 : 1;
+    }
+    return relay_json_has_nul_escape(text, end - text);
+}
+
+static void deliver_message(relay_context* ctx, const char* text, const cJSON* json) {
+    int array_size = cJSON_GetArraySize(json);
+    const cJSON* type_item = cJSON_GetArrayItem(json, 0);
+    if (array_size < 2 || !cJSON_IsString(type_item) || type_has_nul_escape(text)) {
+        return;
+    }
+
+    const char* msg_type = type_item->valuestring;
+    const cJSON* sub_id = cJSON_GetArrayItem(json, 1);
+    bool has_id = cJSON_IsString(sub_id) && !relay_json_has_nul_escape(text, strlen(text));
+
+    if (strcmp(msg_type, "EVENT") == 0 && array_size >= 3) {
+        if (has_id) {
+            deliver_event(ctx, sub_id->valuestring, cJSON_GetArrayItem(json, 2));
+        }
+        return;
+    }
+
+    if (strcmp(msg_type, "CLOSED") == 0 && array_size >= 3 && has_id) {
+        remove_subscription(ctx, sub_id->valuestring);
+    }
+
+    lock_queue_mutex(ctx);
+    nostr_message_callback callback = ctx->message_callback;
+    void* user_data = ctx->message_user_data;
+    unlock_queue_mutex(ctx);
+    if (callback) {
+        callback(msg_type, text, user_data);
+    }
+}
+
+static void deliver_messages(relay_context* ctx, char* start) {
+    char* end;
+
+    start += strspn(start, " \t\r\n");
+    while (*start == '[' && (end = find_json_array_end(start)) != NULL) {
+        char saved = *end;
+        *end = '\0';
+
+        cJSON* json = cJSON_Parse(start);
+        if (json) {
+            deliver_message(ctx, start, json);
+            cJSON_Delete(json);
+        }
+        *end = saved;
+
+        start = end + strspn(end, " \t\r\n");
+    }
+}
+
 static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reason,
                                void* user, void* in, size_t len) {
     nostr_relay* relay = (nostr_relay*)lws_get_opaque_user_data(wsi);
@@ -651,134 +749,36 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
             break;
             
         case LWS_CALLBACK_CLIENT_RECEIVE:
-            if (relay && ctx && in && len > 0) {
+            if (relay && ctx) {
                 const size_t max_buffer_size = 10 * 1024 * 1024;
-                if (ctx->buffer_pos + len >= ctx->buffer_size) {
+                bool complete = lws_is_final_fragment(wsi) && lws_remaining_packet_payload(wsi) == 0;
+
+                if (!ctx->discarding && ctx->buffer_pos + len >= ctx->buffer_size) {
                     size_t new_size = ctx->buffer_pos + len + 1024;
-                    if (new_size > max_buffer_size) {
-                        ctx->buffer_pos = 0;
-                        break;
+                    char* new_buffer = (new_size <= max_buffer_size) ? realloc(ctx->receive_buffer, new_size) : NULL;
+                    if (new_buffer) {
+                        ctx->receive_buffer = new_buffer;
+                        ctx->buffer_size = new_size;
+                    } else {
+                        ctx->discarding = true;
                     }
-                    char* new_buffer = realloc(ctx->receive_buffer, new_size);
-                    if (!new_buffer) break;
-                    ctx->receive_buffer = new_buffer;
-                    ctx->buffer_size = new_size;
                 }
-                
-                memcpy(ctx->receive_buffer + ctx->buffer_pos, in, len);
-                ctx->buffer_pos += len;
-                ctx->receive_buffer[ctx->buffer_pos] = '\0';
-
-                char* start = ctx->receive_buffer;
-                char* end;
-
-                while (*start == '\n' || *start == '\r' || *start == ' ') start++;
-
-                while (*start == '[' && (end = find_json_array_end(start)) != NULL) {
-                    char saved = *end;
-                    *end = '\0';
-
-                    cJSON* json = cJSON_Parse(start);
-                    if (json && cJSON_IsArray(json)) {
-                        int array_size = cJSON_GetArraySize(json);
-                        if (array_size >= 2) {
-                            cJSON* type_item = cJSON_GetArrayItem(json, 0);
-                            if (cJSON_IsString(type_item)) {
-                                const char* msg_type = type_item->valuestring;
-                                
-                                if (strcmp(msg_type, "EVENT") == 0 && array_size >= 3) {
-                                    cJSON* sub_id = cJSON_GetArrayItem(json, 1);
-                                    cJSON* event_json = cJSON_GetArrayItem(json, 2);
-                                    if (cJSON_IsString(sub_id) && event_json) {
-                                        subscription_t* sub = ctx->subscriptions;
-                                        while (sub) {
-                                            if (strcmp(sub->id, sub_id->valuestring) == 0) {
-                                                char* event_str = cJSON_Print(event_json);
-                                                if (event_str) {
-                                                    nostr_event* event;
-                                                    if (nostr_event_from_json(event_str, &event) == NOSTR_OK) {
-                                                        if (sub->callback) {
-                                                            sub->callback(event, sub->user_data);
-                                                        }
-                                                        nostr_event_destroy(event);
-                                                    }
-                                                    free(event_str);
-                                                }
-                                                break;
-                                            }
-                                            sub = sub->next;
-                                        }
-                                    }
-                                } else if (strcmp(msg_type, "OK") == 0 && array_size >= 4) {
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
-                                } else if (strcmp(msg_type, "EOSE") == 0 && array_size >= 2) {
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
-                                } else if (strcmp(msg_type, "CLOSED") == 0 && array_size >= 3) {
-                                    cJSON* sub_id = cJSON_GetArrayItem(json, 1);
-                                    if (cJSON_IsString(sub_id)) {
-                                        subscription_t** sub_ptr = &ctx->subscriptions;
-                                        while (*sub_ptr) {
-                                            if (strcmp((*sub_ptr)->id, sub_id->valuestring) == 0) {
-                                                subscription_t* to_remove = *sub_ptr;
-                                                *sub_ptr = to_remove->next;
-                                                free(to_remove->id);
-                                                free(to_remove);
-                                                break;
-                                            }
-                                            sub_ptr = &(*sub_ptr)->next;
-                                        }
-                                    }
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
-                                } else if (strcmp(msg_type, "NOTICE") == 0 && array_size >= 2) {
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
-                                } else if (ctx->message_callback) {
-                                    char* msg_str = cJSON_Print(json);
-                                    if (msg_str) {
-                                        ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                        free(msg_str);
-                                    }
-                                }
-                            }
-                        }
-                    }
-                    cJSON_Delete(json);
-                    *end = saved;
 
-                    start = end;
-                    while (*start && (*start == '\n' || *start == '\r' || *start == ' ')) start++;
+                if (!ctx->discarding) {
+                    if (in && len > 0) {
+                        memcpy(ctx->receive_buffer + ctx->buffer_pos, in, len);
+                        ctx->buffer_pos += len;
+                    }
+                    ctx->receive_buffer[ctx->buffer_pos] = '\0';
                 }
-                
-                size_t remaining = strlen(start);
-                if (remaining > 0) {
-                    memmove(ctx->receive_buffer, start, remaining + 1);
-                    ctx->buffer_pos = remaining;
-                } else {
+
+                /* a message ends with its last fragment, whatever it held */
+                if (complete) {
+                    if (!ctx->discarding) {
+                        deliver_messages(ctx, ctx->receive_buffer);
+                    }
+                    ctx->discarding = false;
                     ctx->buffer_pos = 0;
-                    if (ctx->receive_buffer) ctx->receive_buffer[0] = '\0';
                 }
             }
             break;
@@ -792,6 +792,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                 bool reconnect = ctx->reconnect_enabled;
                 unlock_queue_mutex(ctx);
                 ctx->buffer_pos = 0;
+                ctx->discarding = false;
 
                 set_state(relay, NOSTR_RELAY_DISCONNECTED);
                 if (ctx->state_callback) {
-- 
2.43.0


From a3cf3d606ee5ede99526220214c02f121734e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:18 +0000
Subject: [PATCH 48/91] fix: register subscriptions only with a well-formed
 request that was sent

---
 src/relay.c | 98 +++++++++++++++++++++++++++--------------------------
 1 file changed, 50 insertions(+), 48 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index de19dfa..98b5641 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -200,6 +200,21 @@ static struct lws_protocols protocols[] = {
     { NULL, NULL, 0, 0 }
 };
 
+/* needs the queue mutex */
+static void remove_subscription(relay_context* ctx, const char* id) {
+    subscription_t** sub_ptr = &ctx->subscriptions;
+    while (*sub_ptr) {
+        if (strcmp((*sub_ptr)->id, id) == 0) {
+            subscription_t* to_remove = *sub_ptr;
+            *sub_ptr = to_remove->next;
+            free(to_remove->id);
+            free(to_remove);
+            break;
+        }
+        sub_ptr = &(*sub_ptr)->next;
+    }
+}
+
 static nostr_error_t open_connection(nostr_relay* relay, relay_context* ctx) {
     struct lws_client_connect_info ccinfo;
     memset(&ccinfo, 0, sizeof(ccinfo));
@@ -516,44 +531,56 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
         return NOSTR_ERR_CONNECTION;
     }
 
-    subscription_t* sub = malloc(sizeof(subscription_t));
-    if (!sub) {
+    /* the request takes any number of filter objects, and nothing else */
+    char* msg = malloc(strlen(subscription_id) + strlen(filters_json) + 20);
+    if (!msg) {
         return NOSTR_ERR_MEMORY;
     }
 
-    {
-        cJSON* filters_parsed = cJSON_Parse(filters_json);
-        if (!filters_parsed) {
-            free(sub);
-            return NOSTR_ERR_INVALID_PARAM;
-        }
-        cJSON_Delete(filters_parsed);
+    sprintf(msg, "[%s]", filters_json);
+    cJSON* filters_parsed = relay_json_parse(msg, 0);
+    bool valid = cJSON_GetArraySize(filters_parsed) > 0;
+    const cJSON* filter;
+    cJSON_ArrayForEach(filter, filters_parsed) {
+        valid = valid && cJSON_IsObject(filter);
     }
-
-    sub->id = strdup(subscription_id);
-    sub->callback = callback;
-    sub->user_data = user_data;
-    sub->next = ctx->subscriptions;
-    ctx->subscriptions = sub;
-
-    char* msg = malloc(strlen(subscription_id) + strlen(filters_json) + 20);
-    if (!msg) {
-        return NOSTR_ERR_MEMORY;
+    cJSON_Delete(filters_parsed);
+    if (!valid) {
+        free(msg);
+        return NOSTR_ERR_INVALID_PARAM;
     }
 
     sprintf(msg, "[\"REQ\",\"%s\",%s]", subscription_id, filters_json);
     
     size_t msg_len = strlen(msg);
     unsigned char* buf = malloc(LWS_PRE + msg_len);
-    if (!buf) {
+    subscription_t* sub = malloc(sizeof(subscription_t));
+    char* id = strdup(subscription_id);
+    if (!buf || !sub || !id) {
         free(msg);
+        free(buf);
+        free(sub);
+        free(id);
         return NOSTR_ERR_MEMORY;
     }
     
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
+    sub->id = id;
+    sub->callback = callback;
+    sub->user_data = user_data;
+
+    /* registered together with the request; one with the same id is replaced */
     lock_queue_mutex(ctx);
     int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
+    if (result >= 0) {
+        remove_subscription(ctx, id);
+        sub->next = ctx->subscriptions;
+        ctx->subscriptions = sub;
+    } else {
+        free(id);
+        free(sub);
+    }
     unlock_queue_mutex(ctx);
 
     free(msg);
@@ -599,18 +626,6 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
         return NOSTR_ERR_CONNECTION;
     }
 
-    subscription_t** sub_ptr = &ctx->subscriptions;
-    while (*sub_ptr) {
-        if (strcmp((*sub_ptr)->id, subscription_id) == 0) {
-            subscription_t* to_remove = *sub_ptr;
-            *sub_ptr = to_remove->next;
-            free(to_remove->id);
-            free(to_remove);
-            break;
-        }
-        sub_ptr = &(*sub_ptr)->next;
-    }
-
     char* msg = malloc(strlen(subscription_id) + 20);
     if (!msg) {
         return NOSTR_ERR_MEMORY;
@@ -628,6 +643,7 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
+    remove_subscription(ctx, subscription_id);
     int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
@@ -637,22 +653,6 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
 }
 
-static void remove_subscription(relay_context* ctx, const char* id) {
-    lock_queue_mutex(ctx);
-    subscription_t** sub_ptr = &ctx->subscriptions;
-    while (*sub_ptr) {
-        if (strcmp((*sub_ptr)->id, id) == 0) {
-            subscription_t* to_remove = *sub_ptr;
-            *sub_ptr = to_remove->next;
-            free(to_remove->id);
-            free(to_remove);
-            break;
-        }
-        sub_ptr = &(*sub_ptr)->next;
-    }
-    unlock_queue_mutex(ctx);
-}
-
 static void deliver_event(relay_context* ctx, const char* id, const cJSON* event_json) {
     nostr_event_callback callback = NULL;
     void* user_data = NULL;
@@ -702,7 +702,9 @@ static void deliver_message(relay_context* ctx, const char* text, const cJSON* j
     }
 
     if (strcmp(msg_type, "CLOSED") == 0 && array_size >= 3 && has_id) {
+        lock_queue_mutex(ctx);
         remove_subscription(ctx, sub_id->valuestring);
+        unlock_queue_mutex(ctx);
     }
 
     lock_queue_mutex(ctx);
-- 
2.43.0


From 333bd235123d8c6d604a230336715ac784ecee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:17 +0000
Subject: [PATCH 49/91] fix: report failed allocations instead of stale
 pointers or wrong answers

nostr_event_create and nostr_relay_create left the freed object in the
caller's pointer; nostr_event_is_reply and nostr_quote_tags_from_content
answered as if the tag or URI did not exist. Checksums of bech32 strings are
computed without a temporary buffer, so they cannot fail this way.
---
 src/bech32.c | 31 +++++++++----------------------
 src/event.c  |  1 +
 src/nip10.c  |  2 ++
 src/nip18.c  |  5 +++++
 src/nip21.c  |  8 ++++++--
 src/relay.c  |  1 +
 6 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/bech32.c b/src/bech32.c
index 5fdb0d0..a721ecd 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -11,8 +11,7 @@ const char BECH32_CHARSET[33] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
 
 const uint32_t BECH32_GENERATOR[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
 
-uint32_t bech32_polymod(const uint8_t* values, size_t len) {
-    uint32_t chk = 1;
+static uint32_t polymod_update(uint32_t chk, const uint8_t* values, size_t len) {
     for (size_t i = 0; i < len; i++) {
         uint32_t top = chk >> 25;
         chk = ((chk & 0x1ffffff) << 5) ^ values[i];
@@ -23,6 +22,10 @@ uint32_t bech32_polymod(const uint8_t* values, size_t len) {
     return chk;
 }
 
+uint32_t bech32_polymod(const uint8_t* values, size_t len) {
+    return polymod_update(1, values, len);
+}
+
 int bech32_hrp_expand(const char* hrp, uint8_t* ret, size_t ret_size) {
     size_t hrp_len = strlen(hrp);
     if (hrp_len > (SIZE_MAX - 1) / 2) return -1;
@@ -44,16 +47,7 @@ int bech32_verify_checksum(const char* hrp, const uint8_t* data, size_t data_len
     int hrp_len = bech32_hrp_expand(hrp, hrp_expanded, sizeof(hrp_expanded));
     if (hrp_len < 0) return 0;
 
-    if ((size_t)hrp_len > SIZE_MAX - data_len) return 0;
-    uint8_t* combined = malloc((size_t)hrp_len + data_len);
-    if (!combined) return 0;
-
-    memcpy(combined, hrp_expanded, hrp_len);
-    memcpy(combined + hrp_len, data, data_len);
-
-    int result = bech32_polymod(combined, (size_t)hrp_len + data_len) == 1;
-    free(combined);
-    return result;
+    return polymod_update(bech32_polymod(hrp_expanded, hrp_len), data, data_len) == 1;
 }
 
 int bech32_create_checksum(const char* hrp, const uint8_t* data, size_t data_len, uint8_t* checksum) {
@@ -61,19 +55,12 @@ int bech32_create_checksum(const char* hrp, const uint8_t* data, size_t data_len
     int hrp_len = bech32_hrp_expand(hrp, hrp_expanded, sizeof(hrp_expanded));
     if (hrp_len < 0) return 0;
 
-    if ((size_t)hrp_len > SIZE_MAX - data_len - 6) return 0;
-    uint8_t* combined = malloc((size_t)hrp_len + data_len + 6);
-    if (!combined) return 0;
-
-    memcpy(combined, hrp_expanded, hrp_len);
-    memcpy(combined + hrp_len, data, data_len);
-    memset(combined + hrp_len + data_len, 0, 6);
-
-    uint32_t polymod = bech32_polymod(combined, (size_t)hrp_len + data_len + 6) ^ 1;
+    static const uint8_t zeros[6] = {0};
+    uint32_t polymod = polymod_update(bech32_polymod(hrp_expanded, hrp_len), data, data_len);
+    polymod = polymod_update(polymod, zeros, sizeof(zeros)) ^ 1;
     for (int i = 0; i < 6; i++) {
         checksum[i] = (polymod >> (5 * (5 - i))) & 31;
     }
-    free(combined);
     return 6;
 }
 
diff --git a/src/event.c b/src/event.c
index 2d4d573..fd0e891 100644
--- a/src/event.c
+++ b/src/event.c
@@ -98,6 +98,7 @@ nostr_error_t nostr_event_create(nostr_event** event)
 
     if (tag_arena_create(&(*event)->tag_arena, 1024) != NOSTR_OK) {
         free(*event);
+        *event = NULL;
         return NOSTR_ERR_MEMORY;
     }
 
diff --git a/src/nip10.c b/src/nip10.c
index c545e45..b8dd249 100644
--- a/src/nip10.c
+++ b/src/nip10.c
@@ -222,6 +222,8 @@ nostr_error_t nostr_event_is_reply(const nostr_event* event, int* is_reply)
 
     char reply_id[65];
     nostr_error_t err = nostr_event_get_reply_id(event, reply_id, sizeof(reply_id), NULL, 0);
+    if (err == NOSTR_ERR_MEMORY)
+        return err;
     if (err == NOSTR_OK && reply_id[0] != '\0')
         *is_reply = 1;
 
diff --git a/src/nip18.c b/src/nip18.c
index 43cd308..36a155f 100644
--- a/src/nip18.c
+++ b/src/nip18.c
@@ -219,6 +219,11 @@ nostr_error_t nostr_quote_tags_from_content(nostr_event* event)
         nostr_error_t err = nostr_uri_parse(uri, &parsed);
         free(uri);
 
+        if (err == NOSTR_ERR_MEMORY) {
+            event->tags_count = tags_before;
+            return err;
+        }
+
         if (err != NOSTR_OK) {
             pos++;
             continue;
diff --git a/src/nip21.c b/src/nip21.c
index 375c5d8..abe39cb 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -117,6 +117,7 @@ static nostr_error_t parse_tlv(const uint8_t* data, size_t data_len,
                                uint8_t* author, int* has_author,
                                uint32_t* kind, int* has_kind) {
     size_t pos = 0;
+    nostr_error_t err = NOSTR_ERR_ENCODING;
     *relay_count = 0;
     if (has_author) *has_author = 0;
     if (has_kind) *has_kind = 0;
@@ -141,7 +142,10 @@ static nostr_error_t parse_tlv(const uint8_t* data, size_t data_len,
                         break;
                     }
                     relays[*relay_count] = malloc(len + 1);
-                    if (!relays[*relay_count]) goto cleanup_error;
+                    if (!relays[*relay_count]) {
+                        err = NOSTR_ERR_MEMORY;
+                        goto cleanup_error;
+                    }
                     memcpy(relays[*relay_count], data + pos, len);
                     relays[*relay_count][len] = '\0';
                     (*relay_count)++;
@@ -179,7 +183,7 @@ cleanup_error:
         }
         *relay_count = 0;
     }
-    return NOSTR_ERR_ENCODING;
+    return err;
 }
 
 static size_t build_tlv(uint8_t* out, size_t out_size,
diff --git a/src/relay.c b/src/relay.c
index 98b5641..20d2a2f 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -295,6 +295,7 @@ nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
     (*relay)->url = strdup(url);
     if (!(*relay)->url) {
         free(*relay);
+        *relay = NULL;
         return NOSTR_ERR_MEMORY;
     }
 
-- 
2.43.0


From 4d3c1e90b5785f39ab08c36eb4c54aaabc8f941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:20 +0000
Subject: [PATCH 50/91] fix: do not let cJSON read past an unterminated relay
 message

---
 src/relay_json.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/relay_json.h b/src/relay_json.h
index 21254ef..1be605d 100644
--- a/src/relay_json.h
+++ b/src/relay_json.h
@@ -10,6 +10,7 @@
 #include <cjson/cJSON.h>
 #include <stdbool.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
 
 /* C strings cannot hold U+0000, cJSON would silently cut the value short;
@@ -51,15 +52,26 @@ static inline cJSON* relay_json_parse(const char* json, size_t json_len)
         return NULL;
     }
 
-    cJSON* root = cJSON_ParseWithLengthOpts(json, len, &end, 0);
+    /* cJSON before 1.7.18 reads one byte past a text that stops after a comma */
+    char* text = malloc(len + 1);
+    if (!text) {
+        return NULL;
+    }
+    memcpy(text, json, len);
+    text[len] = '\0';
+
+    cJSON* root = cJSON_ParseWithLengthOpts(text, len, &end, 0);
     if (!root) {
+        free(text);
         return NULL;
     }
 
-    while (end < json + len && (*end == ' ' || *end == '\t' || *end == '\n' || *end == '\r')) {
+    while (end < text + len && (*end == ' ' || *end == '\t' || *end == '\n' || *end == '\r')) {
         end++;
     }
-    if (end != json + len) {
+    bool whole = end == text + len;
+    free(text);
+    if (!whole) {
         cJSON_Delete(root);
         return NULL;
     }
-- 
2.43.0


From a3d363a863b4fdd56d3bb3e78dc9c4e2fea4799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:43 +0000
Subject: [PATCH 51/91] fix: wipe the decoded private key and its 5-bit form in
 nsec conversion

---
 src/bech32.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bech32.c b/src/bech32.c
index a721ecd..5e9e174 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -211,6 +211,7 @@ nostr_error_t nostr_privkey_to_bech32(const nostr_privkey* privkey, char* bech32
     
     uint8_t checksum[6];
     if (!bech32_create_checksum("nsec", data, data_len, checksum)) {
+        secure_wipe(data, sizeof(data));
         return NOSTR_ERR_ENCODING;
     }
 
@@ -220,6 +221,7 @@ nostr_error_t nostr_privkey_to_bech32(const nostr_privkey* privkey, char* bech32
     for (int i = 0; i < data_len; i++) {
         *pos++ = BECH32_CHARSET[data[i]];
     }
+    secure_wipe(data, sizeof(data));
     for (int i = 0; i < 6; i++) {
         *pos++ = BECH32_CHARSET[checksum[i]];
     }
@@ -246,22 +248,27 @@ nostr_error_t nostr_privkey_from_bech32(const char* bech32, nostr_privkey* privk
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
+            secure_wipe(data, sizeof(data));
             return NOSTR_ERR_ENCODING;
         }
         data[i - 5] = val;
     }
     
     if (!bech32_verify_checksum("nsec", data, len - 5)) {
+        secure_wipe(data, sizeof(data));
         return NOSTR_ERR_ENCODING;
     }
     
     uint8_t decoded[32];
     int decoded_len = bech32_convert_bits(data, len - 5 - 6, decoded, sizeof(decoded), 5, 8, 0);
+    secure_wipe(data, sizeof(data));
     if (decoded_len != NOSTR_PRIVKEY_SIZE) {
+        secure_wipe(decoded, sizeof(decoded));
         return NOSTR_ERR_ENCODING;
     }
     
     memcpy(privkey->data, decoded, NOSTR_PRIVKEY_SIZE);
+    secure_wipe(decoded, sizeof(decoded));
     return NOSTR_OK;
 }
 
-- 
2.43.0


From 7112c94956c8008b5b561fae26c5570587699f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:53 +0000
Subject: [PATCH 52/91] fix: wipe the normalized mnemonic and passphrase when
 seed derivation fails

---
 src/hd_key.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 1b11dc6..53a8e3b 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -502,6 +502,7 @@ nostr_error_t nostr_mnemonic_to_seed(const char* mnemonic, const char* passphras
     if (passphrase) {
         norm_passphrase = nfkd_normalize(passphrase);
         if (!norm_passphrase) {
+            secure_wipe(norm_mnemonic, strlen(norm_mnemonic));
             free(norm_mnemonic);
             return NOSTR_ERR_MEMORY;
         }
@@ -512,8 +513,12 @@ nostr_error_t nostr_mnemonic_to_seed(const char* mnemonic, const char* passphras
 
     char* salt = malloc(salt_len + 1);
     if (!salt) {
+        secure_wipe(norm_mnemonic, strlen(norm_mnemonic));
         free(norm_mnemonic);
-        if (norm_passphrase) free(norm_passphrase);
+        if (norm_passphrase) {
+            secure_wipe(norm_passphrase, passphrase_len);
+            free(norm_passphrase);
+        }
         return NOSTR_ERR_MEMORY;
     }
 
-- 
2.43.0


From 22ca66a7e125eef86733d3c718237d707707094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:02 +0000
Subject: [PATCH 53/91] fix: wipe the word indices of a validated mnemonic

---
 src/hd_key.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hd_key.c b/src/hd_key.c
index 53a8e3b..6a278f3 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -402,6 +402,7 @@ nostr_error_t nostr_mnemonic_validate(const char* mnemonic)
     while (word != NULL && word_count < 24) {
         int idx = bip39_word_index(word);
         if (idx < 0) {
+            secure_wipe(indices, sizeof(indices));
             secure_wipe(mnemonic_copy, mnemonic_len);
             free(mnemonic_copy);
             return NOSTR_ERR_INVALID_PARAM;
@@ -411,6 +412,7 @@ nostr_error_t nostr_mnemonic_validate(const char* mnemonic)
     }
 
     if (word != NULL) {
+        secure_wipe(indices, sizeof(indices));
         secure_wipe(mnemonic_copy, mnemonic_len);
         free(mnemonic_copy);
         return NOSTR_ERR_INVALID_PARAM;
@@ -428,6 +430,7 @@ nostr_error_t nostr_mnemonic_validate(const char* mnemonic)
         entropy_bytes = 32;
         checksum_bits = 8;
     } else {
+        secure_wipe(indices, sizeof(indices));
         return NOSTR_ERR_INVALID_PARAM;
     }
 
@@ -446,6 +449,8 @@ nostr_error_t nostr_mnemonic_validate(const char* mnemonic)
         }
     }
 
+    secure_wipe(indices, sizeof(indices));
+
     uint8_t hash[SHA256_DIGEST_LENGTH];
     SHA256(entropy, entropy_bytes, hash);
 
-- 
2.43.0


From 17926b1bc0125ab7ae296e2bc05269441df0a4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:48 +0000
Subject: [PATCH 54/91] fix: NIP-44 pads to the lengths the specification gives

---
 src/nip44.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index 96e3a43..eef81bf 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -41,14 +41,14 @@ static uint32_t calc_padded_len(uint32_t unpadded_len)
         return 32;
     }
     
+    /* the smallest power of two that is not below the length */
     next_power = 1;
-    while (next_power <= unpadded_len) {
+    while (next_power < unpadded_len) {
         if (next_power > (UINT32_MAX >> 1)) {
             return 0;
         }
         next_power <<= 1;
     }
-    next_power >>= 1;
     
     if (next_power <= 256) {
         chunk = 32;
-- 
2.43.0


From fd9126e18fd5a303a62130a236387ac66278f971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:48 +0000
Subject: [PATCH 55/91] fix: NIP-44 payloads of texts near 65535 bytes were
 refused

---
 src/nip44.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nip44.c b/src/nip44.c
index eef81bf..e40b1b9 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -32,6 +32,9 @@ extern nostr_error_t nostr_init(void);
 
 #define NIP44_VERSION 0x02
 #define NIP44_NONCE_SIZE 32
+/* version, nonce, length, padded text of 32 to 65536 bytes, MAC */
+#define NIP44_MIN_PAYLOAD (1 + 32 + 2 + 32 + 32)
+#define NIP44_MAX_PAYLOAD (1 + 32 + 2 + 65536 + 32)
 
 static uint32_t calc_padded_len(uint32_t unpadded_len)
 {
@@ -393,7 +396,7 @@ nostr_error_t nostr_nip44_decrypt(const nostr_privkey* recipient_privkey, const
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (payload_len < 97 || payload_len > 65600) {
+    if (payload_len < NIP44_MIN_PAYLOAD || payload_len > NIP44_MAX_PAYLOAD) {
         free(payload);
         return NOSTR_ERR_INVALID_PARAM;
     }
-- 
2.43.0


From c63af087ddb8669577e81125aeca49fdcccd72d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:50 +0000
Subject: [PATCH 56/91] fix: NIP-44 accepted altered spellings of a payload

---
 src/nip44.c | 87 ++++++++++++++++++++++++-----------------------------
 1 file changed, 39 insertions(+), 48 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index e40b1b9..e6143cd 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -150,25 +150,6 @@ static int base64_encode(const uint8_t* input, size_t input_len, char** output)
     return 0;
 }
 
-static int base64_decode(const char* input, uint8_t** output, size_t* output_len)
-{
-    size_t input_len = strlen(input);
-    size_t olen = 0;
-
-    mbedtls_base64_decode(NULL, 0, &olen, (const unsigned char*)input, input_len);
-
-    *output = malloc(olen);
-    if (!*output) {
-        return -1;
-    }
-
-    if (mbedtls_base64_decode(*output, olen, output_len, (const unsigned char*)input, input_len) != 0) {
-        free(*output);
-        return -1;
-    }
-
-    return 0;
-}
 #else
 static int base64_encode(const uint8_t* input, size_t input_len, char** output)
 {
@@ -199,54 +180,64 @@ static int base64_encode(const uint8_t* input, size_t input_len, char** output)
 }
 #endif
 
-#if !defined(HAVE_MBEDTLS) && defined(ESP_PLATFORM)
+static int base64_value(char c)
+{
+    if (c >= 'A' && c <= 'Z') return c - 'A';
+    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
+    if (c >= '0' && c <= '9') return c - '0' + 52;
+    if (c == '+') return 62;
+    if (c == '/') return 63;
+    return -1;
+}
+
+/*
+ * The backends' decoders skip white space, ignore what follows the padding and
+ * the unused bits before it, so several texts would stand for one payload.
+ * Only the text base64_encode() produces is accepted here.
+ */
 static int base64_decode(const char* input, uint8_t** output, size_t* output_len)
 {
     size_t input_len = strlen(input);
-    size_t olen = 0;
-
-    mbedtls_base64_decode(NULL, 0, &olen, (const unsigned char*)input, input_len);
+    size_t padding = 0;
+    size_t len = 0;
+    uint32_t bits = 0;
+    uint8_t* result;
 
-    *output = malloc(olen);
-    if (!*output) {
+    if (input_len == 0 || input_len % 4 != 0) {
         return -1;
     }
 
-    if (mbedtls_base64_decode(*output, olen, output_len, (const unsigned char*)input, input_len) != 0) {
-        free(*output);
-        return -1;
+    while (padding < 2 && input[input_len - 1 - padding] == '=') {
+        padding++;
     }
 
-    return 0;
-}
-#elif !defined(HAVE_MBEDTLS)
-static int base64_decode(const char* input, uint8_t** output, size_t* output_len)
-{
-    BIO* b64 = NULL;
-    BIO* bmem = NULL;
-    size_t input_len = strlen(input);
-
-    *output = malloc(input_len);
-    if (!*output) {
+    result = malloc(input_len / 4 * 3);
+    if (!result) {
         return -1;
     }
 
-    bmem = BIO_new_mem_buf(input, input_len);
-    b64 = BIO_new(BIO_f_base64());
-    bmem = BIO_push(b64, bmem);
-    BIO_set_flags(bmem, BIO_FLAGS_BASE64_NO_NL);
+    for (size_t i = 0; i < input_len - padding; i++) {
+        int value = base64_value(input[i]);
+        if (value < 0) {
+            free(result);
+            return -1;
+        }
 
-    *output_len = BIO_read(bmem, *output, input_len);
-    BIO_free_all(bmem);
+        bits = (bits << 6) | (uint32_t)value;
+        if (i % 4 != 0) {
+            result[len++] = (uint8_t)(bits >> (6 - 2 * (i % 4)));
+        }
+    }
 
-    if (*output_len <= 0) {
-        free(*output);
+    if (padding > 0 && (bits & (padding == 1 ? 0x03 : 0x0f)) != 0) {
+        free(result);
         return -1;
     }
 
+    *output = result;
+    *output_len = len;
     return 0;
 }
-#endif
 
 nostr_error_t nostr_nip44_encrypt(const nostr_privkey* sender_privkey, const nostr_key* recipient_pubkey, 
                                   const char* plaintext, size_t plaintext_len, char** ciphertext)
-- 
2.43.0


From a35a5cc431cb30219643c794ef64d36b25504a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:11 +0000
Subject: [PATCH 57/91] fix: a failed draw left gift wraps with their real time

---
 src/nip59.c | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/nip59.c b/src/nip59.c
index b78e3fc..81da413 100644
--- a/src/nip59.c
+++ b/src/nip59.c
@@ -6,6 +6,7 @@
 #include <string.h>
 #include <time.h>
 #include <openssl/rand.h>
+#include <openssl/err.h>
 
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
 #include <noscrypt.h>
@@ -22,16 +23,19 @@ extern secp256k1_context* secp256k1_ctx;
 
 extern nostr_error_t nostr_init(void);
 
-static int64_t randomize_timestamp(int64_t base_time)
+/* Fails closed, as in nip17.c: an unfuzzed timestamp would reveal the send time. */
+static nostr_error_t randomize_timestamp(int64_t base_time, int64_t* out)
 {
     uint32_t random_offset;
     
     if (RAND_bytes((unsigned char*)&random_offset, sizeof(random_offset)) != 1) {
-        return base_time;
+        ERR_clear_error();
+        return NOSTR_ERR_MEMORY;
     }
     
     random_offset %= TWO_DAYS_SECONDS;
-    return base_time - random_offset;
+    *out = base_time - random_offset;
+    return NOSTR_OK;
 }
 
 nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event* event_to_wrap,
@@ -66,7 +70,12 @@ nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event*
     }
     
     seal->kind = KIND_SEAL;
-    seal->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &seal->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(seal);
+        free(event_json);
+        return err;
+    }
     
     /* Derive author's pubkey from privkey */
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
@@ -168,7 +177,14 @@ nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event*
     }
     
     (*gift_wrap)->kind = KIND_GIFT_WRAP;
-    (*gift_wrap)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*gift_wrap)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*gift_wrap);
+        free(encrypted_seal);
+        secure_wipe(&ephemeral_privkey, sizeof(ephemeral_privkey));
+        *gift_wrap = NULL;
+        return err;
+    }
     memcpy(&(*gift_wrap)->pubkey, &ephemeral_pubkey, sizeof(nostr_key));
     
     err = nostr_event_set_content(*gift_wrap, encrypted_seal);
@@ -357,7 +373,13 @@ nostr_error_t nostr_nip59_create_seal(nostr_event** seal, const nostr_event* rum
     }
     
     (*seal)->kind = KIND_SEAL;
-    (*seal)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*seal)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*seal);
+        free(encrypted_rumor);
+        *seal = NULL;
+        return err;
+    }
     
     /* Derive author pubkey from privkey */
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
@@ -473,7 +495,14 @@ nostr_error_t nostr_nip59_create_gift_wrap(nostr_event** gift_wrap, const nostr_
     }
     
     (*gift_wrap)->kind = KIND_GIFT_WRAP;
-    (*gift_wrap)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*gift_wrap)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*gift_wrap);
+        free(encrypted_seal);
+        secure_wipe(&ephemeral_privkey, sizeof(ephemeral_privkey));
+        *gift_wrap = NULL;
+        return err;
+    }
     memcpy(&(*gift_wrap)->pubkey, &ephemeral_pubkey, sizeof(nostr_key));
     
     err = nostr_event_set_content(*gift_wrap, encrypted_seal);
-- 
2.43.0


From 67fe55d583a7b7cab72d92829b725ef3746f200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:11 +0000
Subject: [PATCH 58/91] fix: unwrapping accepted unsigned rumors in another
 author's name

---
 src/nip59.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/nip59.c b/src/nip59.c
index 81da413..ff1465c 100644
--- a/src/nip59.c
+++ b/src/nip59.c
@@ -295,9 +295,23 @@ nostr_error_t nostr_nip59_unwrap_event(const nostr_event* gift_wrap, const nostr
     err = nostr_event_from_json(decrypted_event_json, unwrapped_event);
     secure_wipe(decrypted_event_json, decrypted_event_len);
     free(decrypted_event_json);
-    nostr_event_destroy(seal);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(seal);
+        return err;
+    }
     
-    return err;
+    /* An unsigned event is only worth the seal's signature: anyone could seal
+     * a rumor that names another author. */
+    if (memcmp(&(*unwrapped_event)->pubkey, &seal->pubkey, sizeof(nostr_key)) != 0 &&
+        nostr_event_verify(*unwrapped_event) != NOSTR_OK) {
+        nostr_event_destroy(seal);
+        nostr_event_destroy(*unwrapped_event);
+        *unwrapped_event = NULL;
+        return NOSTR_ERR_INVALID_EVENT;
+    }
+    
+    nostr_event_destroy(seal);
+    return NOSTR_OK;
 }
 
 nostr_error_t nostr_nip59_create_rumor(nostr_event** rumor, uint16_t kind, const nostr_key* pubkey,
-- 
2.43.0


From 44cdd08f758c643895f22dd51d1dafd16a9c773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:11 +0000
Subject: [PATCH 59/91] fix: wrapping an event or sending a message failed
 before nostr_init

---
 src/nip17.c | 5 +++++
 src/nip59.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/nip17.c b/src/nip17.c
index f6c9d75..a000764 100644
--- a/src/nip17.c
+++ b/src/nip17.c
@@ -305,6 +305,11 @@ nostr_error_t nostr_nip17_send_dm(nostr_event** dm, const char* content,
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
+    }
+    
     /* Derive sender pubkey from privkey */
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
     NCSecretKey nc_secret;
diff --git a/src/nip59.c b/src/nip59.c
index ff1465c..2de482a 100644
--- a/src/nip59.c
+++ b/src/nip59.c
@@ -56,6 +56,11 @@ nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event*
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
+    }
+    
     /* Step 1: Serialize the event to JSON */
     err = nostr_event_to_json(event_to_wrap, &event_json);
     if (err != NOSTR_OK) {
-- 
2.43.0


From 15012b687a69cf436c7f06f911cdbb74ad41d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:40 +0000
Subject: [PATCH 60/91] fix: wallet connect strings accepted signs and blanks
 as hex digits

---
 src/nip47.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 8bcaadc..e21ef59 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -116,10 +116,8 @@ static int hex_decode(const char* hex, uint8_t* out, size_t out_len)
     
     for (size_t i = 0; i < out_len; i++) {
         char byte[3] = {hex[i*2], hex[i*2+1], 0};
-        char* end;
-        long val = strtol(byte, &end, 16);
-        if (end != byte + 2) return -1;
-        out[i] = (uint8_t)val;
+        if (!isxdigit((unsigned char)byte[0]) || !isxdigit((unsigned char)byte[1])) return -1;
+        out[i] = (uint8_t)strtol(byte, NULL, 16);
     }
     
     return 0;
@@ -137,9 +135,11 @@ static char* url_decode(const char* src)
     for (size_t i = 0; i < len; i++) {
         if (src[i] == '%' && i + 2 < len) {
             char hex[3] = {src[i+1], src[i+2], 0};
-            char* end;
-            long val = strtol(hex, &end, 16);
-            if (end == hex + 2) {
+            long val = 0;
+            if (isxdigit((unsigned char)hex[0]) && isxdigit((unsigned char)hex[1])) {
+                val = strtol(hex, NULL, 16);
+            }
+            if (val != 0) {
                 dst[j++] = (char)val;
                 i += 2;
                 continue;
-- 
2.43.0


From 69381abfd07874d0e72691c7754cbe2726b63878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:40 +0000
Subject: [PATCH 61/91] fix: a repeated lud16 in a wallet connect string leaked

---
 src/nip47.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nip47.c b/src/nip47.c
index e21ef59..63daf03 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -240,6 +240,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
                 has_secret = 1;
             }
             else if (strcmp(param, "lud16") == 0) {
+                free(conn->lud16);
                 conn->lud16 = url_decode(value);
                 if (!conn->lud16) {
                     free(params);
-- 
2.43.0


From 6f7c6b890a31451ff7433681bd92c7141dd8b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:21 +0000
Subject: [PATCH 62/91] fix: creating a wallet request failed before nostr_init

---
 src/nip47.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nip47.c b/src/nip47.c
index 63daf03..887141b 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -436,6 +436,11 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
         NCSecretKey nc_secret;
         memcpy(nc_secret.key, conn->secret.data, NC_SEC_KEY_SIZE);
         extern NCContext* nc_ctx;
+        if (nostr_init() != NOSTR_OK) {
+            nostr_event_destroy(*event);
+            *event = NULL;
+            return NOSTR_ERR_MEMORY;
+        }
         if (NCGetPublicKey(nc_ctx, &nc_secret, &nc_public) != NC_SUCCESS) {
             nostr_event_destroy(*event);
             *event = NULL;
@@ -445,6 +450,11 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
 #else
         extern secp256k1_context* secp256k1_ctx;
         secp256k1_pubkey pubkey_internal;
+        if (nostr_init() != NOSTR_OK) {
+            nostr_event_destroy(*event);
+            *event = NULL;
+            return NOSTR_ERR_MEMORY;
+        }
         if (!secp256k1_ec_pubkey_create(secp256k1_ctx, &pubkey_internal, conn->secret.data)) {
             nostr_event_destroy(*event);
             *event = NULL;
-- 
2.43.0


From 77c6b3af81a5b78b1ee03539a6ab7c7ac48a3c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:21 +0000
Subject: [PATCH 63/91] fix: long wallet requests were cut short, and text
 after the parameters was sent

---
 src/nip47.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 887141b..1afaf22 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -506,12 +506,9 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
         }
     }
     
-    char escaped_method[256];
-    nip47_json_escape(escaped_method, sizeof(escaped_method), method);
-
 #ifdef HAVE_CJSON
     {
-        cJSON* params_parsed = cJSON_Parse(params_json);
+        cJSON* params_parsed = cJSON_ParseWithOpts(params_json, NULL, 1);
         if (!params_parsed) {
             nostr_event_destroy(*event);
             *event = NULL;
@@ -527,8 +524,20 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     }
 #endif
 
-    char payload[8192];
-    snprintf(payload, sizeof(payload), "{\"method\":\"%s\",\"params\":%s}", escaped_method, params_json);
+    size_t method_size = strlen(method) * 6 + 1;
+    size_t payload_size = method_size + strlen(params_json) + sizeof("{\"method\":\"\",\"params\":}");
+    char* escaped_method = malloc(method_size);
+    char* payload = malloc(payload_size);
+    if (!escaped_method || !payload) {
+        free(escaped_method);
+        free(payload);
+        nostr_event_destroy(*event);
+        *event = NULL;
+        return NOSTR_ERR_MEMORY;
+    }
+    nip47_json_escape(escaped_method, method_size, method);
+    snprintf(payload, payload_size, "{\"method\":\"%s\",\"params\":%s}", escaped_method, params_json);
+    free(escaped_method);
     
     char* encrypted = NULL;
     if (use_nip44) {
@@ -540,6 +549,8 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     } else {
         err = NOSTR_ERR_NOT_SUPPORTED;
     }
+    secure_wipe(payload, strlen(payload));
+    free(payload);
     
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
-- 
2.43.0


From 674c9bf6efd8ae0297846dfc29b217957e2226ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:21 +0000
Subject: [PATCH 64/91] fix: wallet responses that tag the client could not be
 read

---
 src/nip47.c | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 1afaf22..adbbacc 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -583,21 +583,9 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    nostr_key service_pubkey = {0};
-    int found_p_tag = 0;
-    
-    for (size_t i = 0; i < event->tags_count; i++) {
-        if (event->tags[i].count >= 2 && strcmp(event->tags[i].values[0], "p") == 0) {
-            if (hex_decode(event->tags[i].values[1], service_pubkey.data, 32) == 0) {
-                found_p_tag = 1;
-                break;
-            }
-        }
-    }
-    
-    if (!found_p_tag) {
-        memcpy(&service_pubkey, &event->pubkey, sizeof(nostr_key));
-    }
+    /* The p tag of a response names the client: the service is its author. */
+    nostr_key service_pubkey;
+    memcpy(&service_pubkey, &event->pubkey, sizeof(nostr_key));
     
     char* decrypted = NULL;
     nostr_error_t err;
-- 
2.43.0


From 140654d037f856b99537ba633dd09c5e5fb5f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:21 +0000
Subject: [PATCH 65/91] fix: wallet and signer messages took members whose
 names differ in case

---
 src/nip46.c          |  6 +++---
 src/nip47.c          | 14 +++++++-------
 src/nip47_commands.c | 18 +++++++++---------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index 2994d85..b9005d4 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -40,17 +40,17 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
         return NOSTR_ERR_JSON_PARSE;
     }
 
-    cJSON* id = cJSON_GetObjectItem(root, "id");
+    cJSON* id = cJSON_GetObjectItemCaseSensitive(root, "id");
     if (id && cJSON_IsString(id)) {
         strncpy(request->id, id->valuestring, sizeof(request->id) - 1);
     }
 
-    cJSON* method = cJSON_GetObjectItem(root, "method");
+    cJSON* method = cJSON_GetObjectItemCaseSensitive(root, "method");
     if (method && cJSON_IsString(method)) {
         strncpy(request->method, method->valuestring, sizeof(request->method) - 1);
     }
 
-    cJSON* params = cJSON_GetObjectItem(root, "params");
+    cJSON* params = cJSON_GetObjectItemCaseSensitive(root, "params");
     if (params) {
         char* params_str = cJSON_PrintUnformatted(params);
         if (params_str) {
diff --git a/src/nip47.c b/src/nip47.c
index adbbacc..4875faa 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -623,30 +623,30 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     }
     
     if (result_type) {
-        cJSON* type_obj = cJSON_GetObjectItem(root, "result_type");
+        cJSON* type_obj = cJSON_GetObjectItemCaseSensitive(root, "result_type");
         if (type_obj && cJSON_IsString(type_obj)) {
             *result_type = strdup(type_obj->valuestring);
         }
     }
     
     if (result_json) {
-        cJSON* result_obj = cJSON_GetObjectItem(root, "result");
+        cJSON* result_obj = cJSON_GetObjectItemCaseSensitive(root, "result");
         if (result_obj) {
             *result_json = cJSON_PrintUnformatted(result_obj);
         }
     }
     
-    cJSON* error_obj = cJSON_GetObjectItem(root, "error");
+    cJSON* error_obj = cJSON_GetObjectItemCaseSensitive(root, "error");
     if (error_obj) {
         if (error_code) {
-            cJSON* code_obj = cJSON_GetObjectItem(error_obj, "code");
+            cJSON* code_obj = cJSON_GetObjectItemCaseSensitive(error_obj, "code");
             if (code_obj && cJSON_IsString(code_obj)) {
                 *error_code = strdup(code_obj->valuestring);
             }
         }
         
         if (error_message) {
-            cJSON* msg_obj = cJSON_GetObjectItem(error_obj, "message");
+            cJSON* msg_obj = cJSON_GetObjectItemCaseSensitive(error_obj, "message");
             if (msg_obj && cJSON_IsString(msg_obj)) {
                 *error_message = strdup(msg_obj->valuestring);
             }
@@ -830,14 +830,14 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
     }
     
     if (notification_type) {
-        cJSON* type_obj = cJSON_GetObjectItem(root, "notification_type");
+        cJSON* type_obj = cJSON_GetObjectItemCaseSensitive(root, "notification_type");
         if (type_obj && cJSON_IsString(type_obj)) {
             *notification_type = strdup(type_obj->valuestring);
         }
     }
     
     if (notification_json) {
-        cJSON* notif_obj = cJSON_GetObjectItem(root, "notification");
+        cJSON* notif_obj = cJSON_GetObjectItemCaseSensitive(root, "notification");
         if (notif_obj) {
             *notification_json = cJSON_PrintUnformatted(notif_obj);
         }
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 7bba6d9..57a4357 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -360,7 +360,7 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    cJSON* balance = cJSON_GetObjectItem(root, "balance");
+    cJSON* balance = cJSON_GetObjectItemCaseSensitive(root, "balance");
     if (!balance || !cJSON_IsNumber(balance)) {
         cJSON_Delete(root);
         return NOSTR_ERR_INVALID_PARAM;
@@ -397,14 +397,14 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
     }
     
     if (preimage) {
-        cJSON* preim = cJSON_GetObjectItem(root, "preimage");
+        cJSON* preim = cJSON_GetObjectItemCaseSensitive(root, "preimage");
         if (preim && cJSON_IsString(preim)) {
             *preimage = strdup(preim->valuestring);
         }
     }
     
     if (fees_paid) {
-        cJSON* fees = cJSON_GetObjectItem(root, "fees_paid");
+        cJSON* fees = cJSON_GetObjectItemCaseSensitive(root, "fees_paid");
         if (fees && cJSON_IsNumber(fees)) {
             *fees_paid = (uint64_t)fees->valuedouble;
         }
@@ -456,42 +456,42 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
     }
     
     if (alias) {
-        cJSON* al = cJSON_GetObjectItem(root, "alias");
+        cJSON* al = cJSON_GetObjectItemCaseSensitive(root, "alias");
         if (al && cJSON_IsString(al)) {
             *alias = strdup(al->valuestring);
         }
     }
     
     if (color) {
-        cJSON* col = cJSON_GetObjectItem(root, "color");
+        cJSON* col = cJSON_GetObjectItemCaseSensitive(root, "color");
         if (col && cJSON_IsString(col)) {
             *color = strdup(col->valuestring);
         }
     }
     
     if (pubkey) {
-        cJSON* pk = cJSON_GetObjectItem(root, "pubkey");
+        cJSON* pk = cJSON_GetObjectItemCaseSensitive(root, "pubkey");
         if (pk && cJSON_IsString(pk)) {
             *pubkey = strdup(pk->valuestring);
         }
     }
     
     if (network) {
-        cJSON* net = cJSON_GetObjectItem(root, "network");
+        cJSON* net = cJSON_GetObjectItemCaseSensitive(root, "network");
         if (net && cJSON_IsString(net)) {
             *network = strdup(net->valuestring);
         }
     }
     
     if (block_height) {
-        cJSON* height = cJSON_GetObjectItem(root, "block_height");
+        cJSON* height = cJSON_GetObjectItemCaseSensitive(root, "block_height");
         if (height && cJSON_IsNumber(height)) {
             *block_height = (uint32_t)height->valuedouble;
         }
     }
     
     if (methods && method_count) {
-        cJSON* meth = cJSON_GetObjectItem(root, "methods");
+        cJSON* meth = cJSON_GetObjectItemCaseSensitive(root, "methods");
         if (meth && cJSON_IsArray(meth)) {
             *method_count = cJSON_GetArraySize(meth);
             *methods = malloc(*method_count * sizeof(char*));
-- 
2.43.0


From 69dd7fb24b549763298270ff76a845113a3ca6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:21 +0000
Subject: [PATCH 66/91] fix: payments above 2^53 millisatoshi were sent with
 another amount

---
 src/nip47.c          | 20 +++++++++++++++++---
 src/nip47_commands.c | 20 +++++++++++++++++---
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 4875faa..dce268c 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -91,6 +91,16 @@ typedef struct {
     void* notification;
 } nwc_notification_t;
 
+#ifdef HAVE_CJSON
+/* cJSON holds numbers as doubles, which are exact only up to 2^53 */
+static int nip47_add_u64(cJSON* object, const char* name, uint64_t value)
+{
+    char digits[24];
+    snprintf(digits, sizeof(digits), "%llu", (unsigned long long)value);
+    return cJSON_AddRawToObject(object, name, digits) != NULL;
+}
+#endif
+
 static void free_connection(struct nwc_connection* conn)
 {
     if (!conn) return;
@@ -680,8 +690,9 @@ nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const ch
     
     cJSON_AddStringToObject(params, "invoice", invoice);
     
-    if (amount_msats) {
-        cJSON_AddNumberToObject(params, "amount", *amount_msats);
+    if (amount_msats && !nip47_add_u64(params, "amount", *amount_msats)) {
+        cJSON_Delete(params);
+        return NOSTR_ERR_MEMORY;
     }
     
     *params_json = cJSON_PrintUnformatted(params);
@@ -738,7 +749,10 @@ nostr_error_t nostr_nip47_create_make_invoice_params(char** params_json, uint64_
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddNumberToObject(params, "amount", amount_msats);
+    if (!nip47_add_u64(params, "amount", amount_msats)) {
+        cJSON_Delete(params);
+        return NOSTR_ERR_MEMORY;
+    }
     
     if (description) {
         cJSON_AddStringToObject(params, "description", description);
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 57a4357..9829ba3 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -6,6 +6,14 @@
 
 #ifdef HAVE_CJSON
 #include <cjson/cJSON.h>
+
+/* cJSON holds numbers as doubles, which are exact only up to 2^53 */
+static int nip47_add_u64(cJSON* object, const char* name, uint64_t value)
+{
+    char digits[24];
+    snprintf(digits, sizeof(digits), "%llu", (unsigned long long)value);
+    return cJSON_AddRawToObject(object, name, digits) != NULL;
+}
 #endif
 
 nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, time_t* from, time_t* until,
@@ -168,7 +176,10 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddNumberToObject(params, "amount", amount_msats);
+    if (!nip47_add_u64(params, "amount", amount_msats)) {
+        cJSON_Delete(params);
+        return NOSTR_ERR_MEMORY;
+    }
     cJSON_AddStringToObject(params, "pubkey", pubkey);
     
     if (preimage) {
@@ -281,8 +292,11 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
         
         cJSON_AddStringToObject(inv, "invoice", invoices[i]);
         
-        if (amounts && amounts[i] > 0) {
-            cJSON_AddNumberToObject(inv, "amount", amounts[i]);
+        if (amounts && amounts[i] > 0 && !nip47_add_u64(inv, "amount", amounts[i])) {
+            cJSON_Delete(inv);
+            cJSON_Delete(inv_array);
+            cJSON_Delete(params);
+            return NOSTR_ERR_MEMORY;
         }
         
         cJSON_AddItemToArray(inv_array, inv);
-- 
2.43.0


From adf35f2b94f75558d896f8cac8343078dd5a11ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:39 +0000
Subject: [PATCH 67/91] fix: negative balances and fees were read as huge
 amounts

---
 src/nip47_commands.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 9829ba3..ba73f86 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -14,6 +14,13 @@ static int nip47_add_u64(cJSON* object, const char* name, uint64_t value)
     snprintf(digits, sizeof(digits), "%llu", (unsigned long long)value);
     return cJSON_AddRawToObject(object, name, digits) != NULL;
 }
+
+/* a number that fits the type it is read into: below 2^bits and not negative */
+static int nip47_is_unsigned(const cJSON* item, int bits)
+{
+    return cJSON_IsNumber(item) && item->valuedouble >= 0 &&
+           item->valuedouble < (bits == 64 ? 18446744073709551616.0 : 4294967296.0);
+}
 #endif
 
 nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, time_t* from, time_t* until,
@@ -375,7 +382,7 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
     }
     
     cJSON* balance = cJSON_GetObjectItemCaseSensitive(root, "balance");
-    if (!balance || !cJSON_IsNumber(balance)) {
+    if (!nip47_is_unsigned(balance, 64)) {
         cJSON_Delete(root);
         return NOSTR_ERR_INVALID_PARAM;
     }
@@ -419,7 +426,7 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
     
     if (fees_paid) {
         cJSON* fees = cJSON_GetObjectItemCaseSensitive(root, "fees_paid");
-        if (fees && cJSON_IsNumber(fees)) {
+        if (nip47_is_unsigned(fees, 64)) {
             *fees_paid = (uint64_t)fees->valuedouble;
         }
     }
@@ -499,7 +506,7 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
     
     if (block_height) {
         cJSON* height = cJSON_GetObjectItemCaseSensitive(root, "block_height");
-        if (height && cJSON_IsNumber(height)) {
+        if (nip47_is_unsigned(height, 32)) {
             *block_height = (uint32_t)height->valuedouble;
         }
     }
-- 
2.43.0


From 11fdc6312268431adfa63390dad68e7da555d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:39 +0000
Subject: [PATCH 68/91] fix: wallet info with a method that is no string gave
 out uninitialised pointers

---
 src/nip47_commands.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index ba73f86..7a17894 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -514,13 +514,17 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
     if (methods && method_count) {
         cJSON* meth = cJSON_GetObjectItemCaseSensitive(root, "methods");
         if (meth && cJSON_IsArray(meth)) {
-            *method_count = cJSON_GetArraySize(meth);
-            *methods = malloc(*method_count * sizeof(char*));
+            *method_count = 0;
+            *methods = calloc((size_t)cJSON_GetArraySize(meth) + 1, sizeof(char*));
             if (*methods) {
-                for (size_t i = 0; i < *method_count; i++) {
-                    cJSON* item = cJSON_GetArrayItem(meth, i);
-                    if (item && cJSON_IsString(item)) {
-                        (*methods)[i] = strdup(item->valuestring);
+                cJSON* item;
+                cJSON_ArrayForEach(item, meth) {
+                    if (cJSON_IsString(item)) {
+                        char* name = strdup(item->valuestring);
+                        if (!name) {
+                            break;
+                        }
+                        (*methods)[(*method_count)++] = name;
                     }
                 }
             }
-- 
2.43.0


From 706bc69b5056c172deec204097a5b4ee945f6d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:39 +0000
Subject: [PATCH 69/91] fix: parsing a wallet info event without content
 crashed

---
 src/nip47.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip47.c b/src/nip47.c
index dce268c..a5d8d7e 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -284,7 +284,7 @@ nostr_error_t nostr_nip47_parse_info_event(const nostr_event* event, char*** cap
     }
     
     if (capabilities && cap_count) {
-        char* content = strdup(event->content);
+        char* content = strdup(event->content ? event->content : "");
         if (!content) {
             return NOSTR_ERR_MEMORY;
         }
-- 
2.43.0


From cd6d2bc9801af35b7d615bc692a0f9089438197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:15 +0000
Subject: [PATCH 70/91] fix: signer requests with a long id or method were cut
 short

---
 src/nip46.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nip46.c b/src/nip46.c
index b9005d4..d2ce7e4 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -42,11 +42,19 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
 
     cJSON* id = cJSON_GetObjectItemCaseSensitive(root, "id");
     if (id && cJSON_IsString(id)) {
+        if (strlen(id->valuestring) >= sizeof(request->id)) {
+            cJSON_Delete(root);
+            return NOSTR_ERR_INVALID_EVENT;
+        }
         strncpy(request->id, id->valuestring, sizeof(request->id) - 1);
     }
 
     cJSON* method = cJSON_GetObjectItemCaseSensitive(root, "method");
     if (method && cJSON_IsString(method)) {
+        if (strlen(method->valuestring) >= sizeof(request->method)) {
+            cJSON_Delete(root);
+            return NOSTR_ERR_INVALID_EVENT;
+        }
         strncpy(request->method, method->valuestring, sizeof(request->method) - 1);
     }
 
-- 
2.43.0


From 57b58b9a8c5e2e2fa4e8f8d90be750d09420e96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:15 +0000
Subject: [PATCH 71/91] fix: signer results that look like JSON were sent as
 something else than a string

---
 src/nip46.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index d2ce7e4..42d24b2 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -97,12 +97,7 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
     if (response->error) {
         cJSON_AddStringToObject(content_obj, "error", response->error);
     } else if (response->result) {
-        cJSON* result_json = cJSON_Parse(response->result);
-        if (result_json) {
-            cJSON_AddItemToObject(content_obj, "result", result_json);
-        } else {
-            cJSON_AddStringToObject(content_obj, "result", response->result);
-        }
+        cJSON_AddStringToObject(content_obj, "result", response->result);
     }
 
     char* content_str = cJSON_PrintUnformatted(content_obj);
-- 
2.43.0


From d96bb1e505ef3116452249bd9f44943f0b6651ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:15 +0000
Subject: [PATCH 72/91] fix: a signer response was sent without its recipient
 when memory ran out

---
 src/nip46.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nip46.c b/src/nip46.c
index 42d24b2..68a236e 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -132,7 +132,12 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
     char pubkey_hex[65];
     nostr_key_to_hex(recipient_pubkey, pubkey_hex, sizeof(pubkey_hex));
     const char* p_tag[] = {"p", pubkey_hex};
-    nostr_event_add_tag(*event_out, p_tag, 2);
+    err = nostr_event_add_tag(*event_out, p_tag, 2);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*event_out);
+        *event_out = NULL;
+        return err;
+    }
 
     err = nostr_event_compute_id(*event_out);
     if (err != NOSTR_OK) {
-- 
2.43.0


From cf7ffbdee88052bc227d405a3d9afce14c4f2b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:15 +0000
Subject: [PATCH 73/91] fix: wallet sessions were read while another thread
 destroyed them

---
 src/nip47_session.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 074faad..8b3d7da 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -36,12 +36,19 @@ static int sessions_initialized = 0;
 static time_t rate_limit_window_start = 0;
 static int rate_limit_count = 0;
 
+/* Returns the session locked. A session's fields are only read and written
+ * under its lock: another thread may be destroying it. */
 static nwc_session_t* find_session(const char* session_id)
 {
+    if (strlen(session_id) != 64) {
+        return NULL;
+    }
     for (size_t i = 0; i < max_sessions; i++) {
+        pthread_mutex_lock(&sessions[i].lock);
         if (sessions[i].active && nostr_constant_time_memcmp(sessions[i].session_id, session_id, 64) == 0) {
             return &sessions[i];
         }
+        pthread_mutex_unlock(&sessions[i].lock);
     }
     return NULL;
 }
@@ -65,8 +72,8 @@ static void cleanup_expired_sessions()
     time_t now = time(NULL);
     
     for (size_t i = 0; i < max_sessions; i++) {
+        pthread_mutex_lock(&sessions[i].lock);
         if (sessions[i].active && sessions[i].expires_at < now) {
-            pthread_mutex_lock(&sessions[i].lock);
             sessions[i].active = 0;
             if (sessions[i].connection) {
                 nostr_nip47_free_connection(sessions[i].connection);
@@ -78,8 +85,8 @@ static void cleanup_expired_sessions()
             free(sessions[i].permissions);
             sessions[i].permissions = NULL;
             sessions[i].permission_count = 0;
-            pthread_mutex_unlock(&sessions[i].lock);
         }
+        pthread_mutex_unlock(&sessions[i].lock);
     }
 }
 
@@ -89,13 +96,14 @@ nostr_error_t nostr_nip47_session_init()
     
     if (!sessions_initialized) {
         const nostr_config* config = nostr_config_get_current();
-        max_sessions = config ? config->max_sessions : 100;
+        size_t count = config ? config->max_sessions : 100;
         
-        sessions = calloc(max_sessions, sizeof(nwc_session_t));
+        sessions = calloc(count, sizeof(nwc_session_t));
         if (!sessions) {
             pthread_mutex_unlock(&sessions_lock);
             return NOSTR_ERR_MEMORY;
         }
+        max_sessions = count;
         
         for (size_t i = 0; i < max_sessions; i++) {
             sessions[i].active = 0;
@@ -118,12 +126,13 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (!sessions_initialized) {
-        nostr_nip47_session_init();
+    nostr_error_t err = nostr_nip47_session_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
     
     struct nwc_connection* conn = NULL;
-    nostr_error_t err = nostr_nip47_parse_connection_uri(connection_uri, &conn);
+    err = nostr_nip47_parse_connection_uri(connection_uri, &conn);
     if (err != NOSTR_OK) {
         return err;
     }
@@ -146,7 +155,10 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
 
     int slot = -1;
     for (size_t i = 0; i < max_sessions; i++) {
-        if (!sessions[i].active) {
+        pthread_mutex_lock(&sessions[i].lock);
+        int active = sessions[i].active;
+        pthread_mutex_unlock(&sessions[i].lock);
+        if (!active) {
             slot = i;
             break;
         }
@@ -199,7 +211,6 @@ nostr_error_t nostr_nip47_session_add_permission(const char* session_id, const c
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    pthread_mutex_lock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
 
     const nostr_config* config = nostr_config_get_current();
@@ -246,7 +257,6 @@ nostr_error_t nostr_nip47_session_check_permission(const char* session_id, const
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    pthread_mutex_lock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
 
     time_t now = time(NULL);
@@ -301,7 +311,6 @@ nostr_error_t nostr_nip47_session_get_connection(const char* session_id, struct
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    pthread_mutex_lock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
 
     time_t now = time(NULL);
@@ -331,7 +340,6 @@ nostr_error_t nostr_nip47_session_extend(const char* session_id, uint32_t additi
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    pthread_mutex_lock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
 
     session->expires_at += additional_secs;
@@ -354,7 +362,6 @@ nostr_error_t nostr_nip47_session_destroy(const char* session_id)
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    pthread_mutex_lock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
     
     session->active = 0;
-- 
2.43.0


From 228f027ac75067d3bb56f4e38b286de9be8dbf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:15 +0000
Subject: [PATCH 74/91] fix: a huge amount overflowed a wallet permission's
 budget

---
 src/nip47_session.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 8b3d7da..b617883 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -286,7 +286,8 @@ nostr_error_t nostr_nip47_session_check_permission(const char* session_id, const
         perm->reset_time = now + perm->reset_interval_secs;
     }
     
-    if (perm->limit_msats > 0 && perm->used_msats + amount_msats > perm->limit_msats) {
+    if (perm->limit_msats > 0 && (perm->used_msats > perm->limit_msats ||
+                                  amount_msats > perm->limit_msats - perm->used_msats)) {
         pthread_mutex_unlock(&session->lock);
         return NOSTR_ERR_INVALID_PARAM;
     }
-- 
2.43.0


From b58af025d10c20727180d91a4385aa4575a437d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:15 +0000
Subject: [PATCH 75/91] fix: raising max_permissions overflowed the permissions
 of live wallet sessions

---
 src/nip47_session.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index b617883..796657f 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -221,16 +221,20 @@ nostr_error_t nostr_nip47_session_add_permission(const char* session_id, const c
         return NOSTR_ERR_MEMORY;
     }
     
-    if (session->permissions == NULL) {
-        session->permissions = calloc(max_perms, sizeof(permission_t));
-        if (!session->permissions) {
-            pthread_mutex_unlock(&session->lock);
-            return NOSTR_ERR_MEMORY;
-        }
+    /* the limit may have been raised since the last permission was added */
+    permission_t* grown = realloc(session->permissions, (session->permission_count + 1) * sizeof(permission_t));
+    if (!grown) {
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_MEMORY;
     }
+    session->permissions = grown;
     
     permission_t* perm = &session->permissions[session->permission_count];
     perm->name = strdup(permission);
+    if (!perm->name) {
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_MEMORY;
+    }
     perm->limit_msats = limit_msats;
     perm->reset_interval_secs = reset_interval_secs;
     perm->reset_time = time(NULL) + reset_interval_secs;
-- 
2.43.0


From 46e59ef660db1da2764d2c76fb1e72349d50a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:15 +0000
Subject: [PATCH 76/91] fix: out of memory, a wallet session was created
 without an id

---
 src/nip47_session.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 796657f..227b5c4 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -179,6 +179,13 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
         nostr_nip47_free_connection(conn);
         return NOSTR_ERR_MEMORY;
     }
+    char* id = strdup(session->session_id);
+    if (!id) {
+        pthread_mutex_unlock(&session->lock);
+        pthread_mutex_unlock(&sessions_lock);
+        nostr_nip47_free_connection(conn);
+        return NOSTR_ERR_MEMORY;
+    }
     session->connection = conn;
     session->created_at = time(NULL);
     session->last_used = session->created_at;
@@ -188,7 +195,7 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
     session->active = 1;
     session->permission_count = 0;
     
-    *session_id = strdup(session->session_id);
+    *session_id = id;
     
     pthread_mutex_unlock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
-- 
2.43.0


From d6986b743f83aaef9336ddfacfd08ef8c4b0ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:33 +0000
Subject: [PATCH 77/91] fix: wallet and signer messages were accepted with
 other text after them

---
 src/nip46.c          | 2 +-
 src/nip47.c          | 4 ++--
 src/nip47_commands.c | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index 68a236e..a0b7fca 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -34,7 +34,7 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
     }
 
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(decrypted);
+    cJSON* root = cJSON_ParseWithOpts(decrypted, NULL, 1);
     free(decrypted);
     if (!root) {
         return NOSTR_ERR_JSON_PARSE;
diff --git a/src/nip47.c b/src/nip47.c
index a5d8d7e..1aeecf4 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -626,7 +626,7 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(decrypted);
+    cJSON* root = cJSON_ParseWithOpts(decrypted, NULL, 1);
     if (!root) {
         free(decrypted);
         return NOSTR_ERR_INVALID_PARAM;
@@ -837,7 +837,7 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(decrypted);
+    cJSON* root = cJSON_ParseWithOpts(decrypted, NULL, 1);
     if (!root) {
         free(decrypted);
         return NOSTR_ERR_INVALID_PARAM;
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 7a17894..82a0eaf 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -376,7 +376,7 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(result_json);
+    cJSON* root = cJSON_ParseWithOpts(result_json, NULL, 1);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
@@ -412,7 +412,7 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(result_json);
+    cJSON* root = cJSON_ParseWithOpts(result_json, NULL, 1);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
@@ -471,7 +471,7 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(result_json);
+    cJSON* root = cJSON_ParseWithOpts(result_json, NULL, 1);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-- 
2.43.0


From 76522090d9fa12ea64ad2abf63bdc3126abfe327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:59 +0000
Subject: [PATCH 78/91] fix: large keysend TLV types were sent inexactly

---
 src/nip47_commands.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 82a0eaf..4fb60f1 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -208,9 +208,7 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
                     return NOSTR_ERR_MEMORY;
                 }
                 
-                char* end;
-                long type_val = strtol(tlv_records[i], &end, 10);
-                cJSON_AddNumberToObject(tlv, "type", type_val);
+                nip47_add_u64(tlv, "type", strtoull(tlv_records[i], NULL, 10));
                 cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1]);
                 cJSON_AddItemToArray(tlv_array, tlv);
             }
-- 
2.43.0


From 3ee5ee7c303b8311578944a273a0cc8c690fa943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:48 +0000
Subject: [PATCH 79/91] fix: out of memory, wallet and signer messages lost
 members

---
 src/nip46.c          | 12 +++----
 src/nip47.c          | 22 ++++--------
 src/nip47_commands.c | 81 +++++++++++++++-----------------------------
 3 files changed, 39 insertions(+), 76 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index a0b7fca..2cafb4d 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -92,12 +92,12 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
         return NOSTR_ERR_MEMORY;
     }
 
-    cJSON_AddStringToObject(content_obj, "id", response->id);
-
-    if (response->error) {
-        cJSON_AddStringToObject(content_obj, "error", response->error);
-    } else if (response->result) {
-        cJSON_AddStringToObject(content_obj, "result", response->result);
+    const char* member = response->error ? "error" : "result";
+    const char* value = response->error ? response->error : response->result;
+    if (!cJSON_AddStringToObject(content_obj, "id", response->id) ||
+        (value && !cJSON_AddStringToObject(content_obj, member, value))) {
+        cJSON_Delete(content_obj);
+        return NOSTR_ERR_MEMORY;
     }
 
     char* content_str = cJSON_PrintUnformatted(content_obj);
diff --git a/src/nip47.c b/src/nip47.c
index 1aeecf4..a6652de 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -688,9 +688,8 @@ nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const ch
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddStringToObject(params, "invoice", invoice);
-    
-    if (amount_msats && !nip47_add_u64(params, "amount", *amount_msats)) {
+    if (!cJSON_AddStringToObject(params, "invoice", invoice) ||
+        (amount_msats && !nip47_add_u64(params, "amount", *amount_msats))) {
         cJSON_Delete(params);
         return NOSTR_ERR_MEMORY;
     }
@@ -749,23 +748,14 @@ nostr_error_t nostr_nip47_create_make_invoice_params(char** params_json, uint64_
         return NOSTR_ERR_MEMORY;
     }
     
-    if (!nip47_add_u64(params, "amount", amount_msats)) {
+    if (!nip47_add_u64(params, "amount", amount_msats) ||
+        (description && !cJSON_AddStringToObject(params, "description", description)) ||
+        (description_hash && !cJSON_AddStringToObject(params, "description_hash", description_hash)) ||
+        (expiry_secs && !cJSON_AddNumberToObject(params, "expiry", *expiry_secs))) {
         cJSON_Delete(params);
         return NOSTR_ERR_MEMORY;
     }
     
-    if (description) {
-        cJSON_AddStringToObject(params, "description", description);
-    }
-    
-    if (description_hash) {
-        cJSON_AddStringToObject(params, "description_hash", description_hash);
-    }
-    
-    if (expiry_secs) {
-        cJSON_AddNumberToObject(params, "expiry", *expiry_secs);
-    }
-    
     *params_json = cJSON_PrintUnformatted(params);
     cJSON_Delete(params);
     
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 4fb60f1..20aa2ce 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -37,28 +37,14 @@ nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, ti
         return NOSTR_ERR_MEMORY;
     }
     
-    if (from) {
-        cJSON_AddNumberToObject(params, "from", *from);
-    }
-    
-    if (until) {
-        cJSON_AddNumberToObject(params, "until", *until);
-    }
-    
-    if (limit) {
-        cJSON_AddNumberToObject(params, "limit", *limit);
-    }
-    
-    if (offset) {
-        cJSON_AddNumberToObject(params, "offset", *offset);
-    }
-    
-    if (unpaid) {
-        cJSON_AddBoolToObject(params, "unpaid", *unpaid);
-    }
-    
-    if (type) {
-        cJSON_AddStringToObject(params, "type", type);
+    if ((from && !cJSON_AddNumberToObject(params, "from", *from)) ||
+        (until && !cJSON_AddNumberToObject(params, "until", *until)) ||
+        (limit && !cJSON_AddNumberToObject(params, "limit", *limit)) ||
+        (offset && !cJSON_AddNumberToObject(params, "offset", *offset)) ||
+        (unpaid && !cJSON_AddBoolToObject(params, "unpaid", *unpaid)) ||
+        (type && !cJSON_AddStringToObject(params, "type", type))) {
+        cJSON_Delete(params);
+        return NOSTR_ERR_MEMORY;
     }
     
     *params_json = cJSON_PrintUnformatted(params);
@@ -131,12 +117,10 @@ nostr_error_t nostr_nip47_create_lookup_invoice_params(char** params_json, const
         return NOSTR_ERR_MEMORY;
     }
     
-    if (payment_hash) {
-        cJSON_AddStringToObject(params, "payment_hash", payment_hash);
-    }
-    
-    if (invoice) {
-        cJSON_AddStringToObject(params, "invoice", invoice);
+    if ((payment_hash && !cJSON_AddStringToObject(params, "payment_hash", payment_hash)) ||
+        (invoice && !cJSON_AddStringToObject(params, "invoice", invoice))) {
+        cJSON_Delete(params);
+        return NOSTR_ERR_MEMORY;
     }
     
     *params_json = cJSON_PrintUnformatted(params);
@@ -183,18 +167,15 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
         return NOSTR_ERR_MEMORY;
     }
     
-    if (!nip47_add_u64(params, "amount", amount_msats)) {
+    if (!nip47_add_u64(params, "amount", amount_msats) ||
+        !cJSON_AddStringToObject(params, "pubkey", pubkey) ||
+        (preimage && !cJSON_AddStringToObject(params, "preimage", preimage))) {
         cJSON_Delete(params);
         return NOSTR_ERR_MEMORY;
     }
-    cJSON_AddStringToObject(params, "pubkey", pubkey);
-    
-    if (preimage) {
-        cJSON_AddStringToObject(params, "preimage", preimage);
-    }
     
     if (tlv_records && tlv_count > 0) {
-        cJSON* tlv_array = cJSON_CreateArray();
+        cJSON* tlv_array = cJSON_AddArrayToObject(params, "tlv_records");
         if (!tlv_array) {
             cJSON_Delete(params);
             return NOSTR_ERR_MEMORY;
@@ -207,14 +188,15 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
                     cJSON_Delete(params);
                     return NOSTR_ERR_MEMORY;
                 }
-                
-                nip47_add_u64(tlv, "type", strtoull(tlv_records[i], NULL, 10));
-                cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1]);
                 cJSON_AddItemToArray(tlv_array, tlv);
+                
+                if (!nip47_add_u64(tlv, "type", strtoull(tlv_records[i], NULL, 10)) ||
+                    !cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1])) {
+                    cJSON_Delete(params);
+                    return NOSTR_ERR_MEMORY;
+                }
             }
         }
-        
-        cJSON_AddItemToObject(params, "tlv_records", tlv_array);
     }
     
     *params_json = cJSON_PrintUnformatted(params);
@@ -278,7 +260,7 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON* inv_array = cJSON_CreateArray();
+    cJSON* inv_array = cJSON_AddArrayToObject(params, "invoices");
     if (!inv_array) {
         cJSON_Delete(params);
         return NOSTR_ERR_MEMORY;
@@ -290,25 +272,16 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
             cJSON_Delete(params);
             return NOSTR_ERR_MEMORY;
         }
+        cJSON_AddItemToArray(inv_array, inv);
         
-        if (invoice_ids && invoice_ids[i]) {
-            cJSON_AddStringToObject(inv, "id", invoice_ids[i]);
-        }
-        
-        cJSON_AddStringToObject(inv, "invoice", invoices[i]);
-        
-        if (amounts && amounts[i] > 0 && !nip47_add_u64(inv, "amount", amounts[i])) {
-            cJSON_Delete(inv);
-            cJSON_Delete(inv_array);
+        if ((invoice_ids && invoice_ids[i] && !cJSON_AddStringToObject(inv, "id", invoice_ids[i])) ||
+            !cJSON_AddStringToObject(inv, "invoice", invoices[i]) ||
+            (amounts && amounts[i] > 0 && !nip47_add_u64(inv, "amount", amounts[i]))) {
             cJSON_Delete(params);
             return NOSTR_ERR_MEMORY;
         }
-        
-        cJSON_AddItemToArray(inv_array, inv);
     }
     
-    cJSON_AddItemToObject(params, "invoices", inv_array);
-    
     *params_json = cJSON_PrintUnformatted(params);
     cJSON_Delete(params);
     
-- 
2.43.0


From 83d219a2cff621a89d10a4b9ac46701e0f62aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:37 +0000
Subject: [PATCH 80/91] fix: out of memory, parsing a wallet info event left
 freed lists behind

---
 src/nip47.c | 205 +++++++++++++++++++---------------------------------
 1 file changed, 76 insertions(+), 129 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index a6652de..1f51fb0 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -274,6 +274,69 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
     return NOSTR_OK;
 }
 
+static void free_words(char*** words, size_t* count)
+{
+    if (!words || !count) return;
+    for (size_t i = 0; i < *count; i++) {
+        free((*words)[i]);
+    }
+    free(*words);
+    *words = NULL;
+    *count = 0;
+}
+
+static nostr_error_t split_words(const char* text, char*** words, size_t* count)
+{
+    *words = NULL;
+    *count = 0;
+    
+    char* copy = strdup(text);
+    if (!copy) {
+        return NOSTR_ERR_MEMORY;
+    }
+    
+    size_t max = 1;
+    for (char* p = copy; *p; p++) {
+        if (*p == ' ') max++;
+    }
+    
+    *words = malloc(max * sizeof(char*));
+    if (!*words) {
+        free(copy);
+        return NOSTR_ERR_MEMORY;
+    }
+    
+    char* saveptr;
+    for (char* word = strtok_r(copy, " ", &saveptr); word; word = strtok_r(NULL, " ", &saveptr)) {
+        char* dup = strdup(word);
+        if (!dup) {
+            free_words(words, count);
+            free(copy);
+            return NOSTR_ERR_MEMORY;
+        }
+        (*words)[(*count)++] = dup;
+    }
+    
+    free(copy);
+    return NOSTR_OK;
+}
+
+static nostr_error_t split_tag(const nostr_event* event, const char* name, char*** words, size_t* count)
+{
+    if (!words || !count) {
+        return NOSTR_OK;
+    }
+    *words = NULL;
+    *count = 0;
+    
+    for (size_t i = 0; i < event->tags_count; i++) {
+        if (event->tags[i].count >= 2 && strcmp(event->tags[i].values[0], name) == 0) {
+            return split_words(event->tags[i].values[1], words, count);
+        }
+    }
+    return NOSTR_OK;
+}
+
 nostr_error_t nostr_nip47_parse_info_event(const nostr_event* event, char*** capabilities, 
                                            size_t* cap_count, char*** notifications, 
                                            size_t* notif_count, char*** encryptions,
@@ -283,141 +346,25 @@ nostr_error_t nostr_nip47_parse_info_event(const nostr_event* event, char*** cap
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    nostr_error_t err = NOSTR_OK;
     if (capabilities && cap_count) {
-        char* content = strdup(event->content ? event->content : "");
-        if (!content) {
-            return NOSTR_ERR_MEMORY;
-        }
-        
-        *cap_count = 0;
-        for (char* p = content; *p; p++) {
-            if (*p == ' ') (*cap_count)++;
-        }
-        (*cap_count)++;
-        
-        *capabilities = malloc(*cap_count * sizeof(char*));
-        if (!*capabilities) {
-            free(content);
-            return NOSTR_ERR_MEMORY;
-        }
-        
-        size_t i = 0;
-        char* saveptr;
-        char* cap = strtok_r(content, " ", &saveptr);
-        while (cap && i < *cap_count) {
-            (*capabilities)[i] = strdup(cap);
-            if (!(*capabilities)[i]) {
-                for (size_t j = 0; j < i; j++) {
-                    free((*capabilities)[j]);
-                }
-                free(*capabilities);
-                free(content);
-                return NOSTR_ERR_MEMORY;
-            }
-            i++;
-            cap = strtok_r(NULL, " ", &saveptr);
+        err = split_words(event->content ? event->content : "", capabilities, cap_count);
+        if (err != NOSTR_OK) {
+            return err;
         }
-        *cap_count = i;
-        
-        free(content);
     }
     
-    if (notifications && notif_count) {
-        *notifications = NULL;
-        *notif_count = 0;
-        
-        for (size_t i = 0; i < event->tags_count; i++) {
-            if (event->tags[i].count >= 2 && 
-                strcmp(event->tags[i].values[0], "notifications") == 0) {
-                
-                char* notif_str = strdup(event->tags[i].values[1]);
-                if (!notif_str) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                *notif_count = 0;
-                for (char* p = notif_str; *p; p++) {
-                    if (*p == ' ') (*notif_count)++;
-                }
-                (*notif_count)++;
-                
-                *notifications = malloc(*notif_count * sizeof(char*));
-                if (!*notifications) {
-                    free(notif_str);
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                size_t j = 0;
-                char* saveptr;
-                char* notif = strtok_r(notif_str, " ", &saveptr);
-                while (notif && j < *notif_count) {
-                    (*notifications)[j] = strdup(notif);
-                    if (!(*notifications)[j]) {
-                        for (size_t k = 0; k < j; k++) {
-                            free((*notifications)[k]);
-                        }
-                        free(*notifications);
-                        free(notif_str);
-                        return NOSTR_ERR_MEMORY;
-                    }
-                    j++;
-                    notif = strtok_r(NULL, " ", &saveptr);
-                }
-                *notif_count = j;
-                
-                free(notif_str);
-                break;
-            }
-        }
+    err = split_tag(event, "notifications", notifications, notif_count);
+    if (err != NOSTR_OK) {
+        free_words(capabilities, cap_count);
+        return err;
     }
     
-    if (encryptions && enc_count) {
-        *encryptions = NULL;
-        *enc_count = 0;
-        
-        for (size_t i = 0; i < event->tags_count; i++) {
-            if (event->tags[i].count >= 2 && 
-                strcmp(event->tags[i].values[0], "encryption") == 0) {
-                
-                char* enc_str = strdup(event->tags[i].values[1]);
-                if (!enc_str) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                *enc_count = 0;
-                for (char* p = enc_str; *p; p++) {
-                    if (*p == ' ') (*enc_count)++;
-                }
-                (*enc_count)++;
-                
-                *encryptions = malloc(*enc_count * sizeof(char*));
-                if (!*encryptions) {
-                    free(enc_str);
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                size_t j = 0;
-                char* saveptr;
-                char* enc = strtok_r(enc_str, " ", &saveptr);
-                while (enc && j < *enc_count) {
-                    (*encryptions)[j] = strdup(enc);
-                    if (!(*encryptions)[j]) {
-                        for (size_t k = 0; k < j; k++) {
-                            free((*encryptions)[k]);
-                        }
-                        free(*encryptions);
-                        free(enc_str);
-                        return NOSTR_ERR_MEMORY;
-                    }
-                    j++;
-                    enc = strtok_r(NULL, " ", &saveptr);
-                }
-                *enc_count = j;
-                
-                free(enc_str);
-                break;
-            }
-        }
+    err = split_tag(event, "encryption", encryptions, enc_count);
+    if (err != NOSTR_OK) {
+        free_words(capabilities, cap_count);
+        free_words(notifications, notif_count);
+        return err;
     }
     
     return NOSTR_OK;
-- 
2.43.0


From 5df80cc942f49ad0d2ef31a0d58110a5c4c09f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:46 +0000
Subject: [PATCH 81/91] fix: out of memory, parts of wallet and signer messages
 were read as absent

---
 src/nip46.c          |  8 +++--
 src/nip47.c          | 66 ++++++++++++++++++++++++----------
 src/nip47_commands.c | 85 +++++++++++++++++++++++++-------------------
 3 files changed, 102 insertions(+), 57 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index 2cafb4d..6b505bd 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -61,10 +61,12 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
     cJSON* params = cJSON_GetObjectItemCaseSensitive(root, "params");
     if (params) {
         char* params_str = cJSON_PrintUnformatted(params);
-        if (params_str) {
-            request->params = params_str;
-            request->params_len = strlen(params_str);
+        if (!params_str) {
+            cJSON_Delete(root);
+            return NOSTR_ERR_MEMORY;
         }
+        request->params = params_str;
+        request->params_len = strlen(params_str);
     }
 
     cJSON_Delete(root);
diff --git a/src/nip47.c b/src/nip47.c
index 1f51fb0..83a49c1 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -532,6 +532,16 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     return NOSTR_OK;
 }
 
+#ifdef HAVE_CJSON
+/* copies a member that is a string; fails only for want of memory */
+static int copy_string(const cJSON* item, char** out)
+{
+    if (!cJSON_IsString(item)) return 1;
+    *out = strdup(item->valuestring);
+    return *out != NULL;
+}
+#endif
+
 nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const nostr_privkey* client_secret,
                                                char** result_type, char** result_json, 
                                                char** error_code, char** error_message)
@@ -579,38 +589,48 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    char* type = NULL;
+    char* result = NULL;
+    char* code = NULL;
+    char* message = NULL;
+    int complete = 1;
+    
     if (result_type) {
-        cJSON* type_obj = cJSON_GetObjectItemCaseSensitive(root, "result_type");
-        if (type_obj && cJSON_IsString(type_obj)) {
-            *result_type = strdup(type_obj->valuestring);
-        }
+        complete &= copy_string(cJSON_GetObjectItemCaseSensitive(root, "result_type"), &type);
     }
     
     if (result_json) {
         cJSON* result_obj = cJSON_GetObjectItemCaseSensitive(root, "result");
         if (result_obj) {
-            *result_json = cJSON_PrintUnformatted(result_obj);
+            result = cJSON_PrintUnformatted(result_obj);
+            complete &= result != NULL;
         }
     }
     
     cJSON* error_obj = cJSON_GetObjectItemCaseSensitive(root, "error");
     if (error_obj) {
         if (error_code) {
-            cJSON* code_obj = cJSON_GetObjectItemCaseSensitive(error_obj, "code");
-            if (code_obj && cJSON_IsString(code_obj)) {
-                *error_code = strdup(code_obj->valuestring);
-            }
+            complete &= copy_string(cJSON_GetObjectItemCaseSensitive(error_obj, "code"), &code);
         }
         
         if (error_message) {
-            cJSON* msg_obj = cJSON_GetObjectItemCaseSensitive(error_obj, "message");
-            if (msg_obj && cJSON_IsString(msg_obj)) {
-                *error_message = strdup(msg_obj->valuestring);
-            }
+            complete &= copy_string(cJSON_GetObjectItemCaseSensitive(error_obj, "message"), &message);
         }
     }
     
     cJSON_Delete(root);
+    if (!complete) {
+        free(type);
+        free(result);
+        free(code);
+        free(message);
+        free(decrypted);
+        return NOSTR_ERR_MEMORY;
+    }
+    if (type) *result_type = type;
+    if (result) *result_json = result;
+    if (code) *error_code = code;
+    if (message) *error_message = message;
 #else
     if (result_type) *result_type = strdup("unknown");
     if (result_json) *result_json = strdup("{}");
@@ -780,21 +800,31 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    char* type = NULL;
+    char* notification = NULL;
+    int complete = 1;
+    
     if (notification_type) {
-        cJSON* type_obj = cJSON_GetObjectItemCaseSensitive(root, "notification_type");
-        if (type_obj && cJSON_IsString(type_obj)) {
-            *notification_type = strdup(type_obj->valuestring);
-        }
+        complete &= copy_string(cJSON_GetObjectItemCaseSensitive(root, "notification_type"), &type);
     }
     
     if (notification_json) {
         cJSON* notif_obj = cJSON_GetObjectItemCaseSensitive(root, "notification");
         if (notif_obj) {
-            *notification_json = cJSON_PrintUnformatted(notif_obj);
+            notification = cJSON_PrintUnformatted(notif_obj);
+            complete &= notification != NULL;
         }
     }
     
     cJSON_Delete(root);
+    if (!complete) {
+        free(type);
+        free(notification);
+        free(decrypted);
+        return NOSTR_ERR_MEMORY;
+    }
+    if (type) *notification_type = type;
+    if (notification) *notification_json = notification;
 #else
     if (notification_type) *notification_type = strdup("unknown");
     if (notification_json) *notification_json = strdup("{}");
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 20aa2ce..7e0904e 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -391,7 +391,12 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
     if (preimage) {
         cJSON* preim = cJSON_GetObjectItemCaseSensitive(root, "preimage");
         if (preim && cJSON_IsString(preim)) {
-            *preimage = strdup(preim->valuestring);
+            char* copy = strdup(preim->valuestring);
+            if (!copy) {
+                cJSON_Delete(root);
+                return NOSTR_ERR_MEMORY;
+            }
+            *preimage = copy;
         }
     }
     
@@ -447,61 +452,69 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (alias) {
-        cJSON* al = cJSON_GetObjectItemCaseSensitive(root, "alias");
-        if (al && cJSON_IsString(al)) {
-            *alias = strdup(al->valuestring);
-        }
-    }
-    
-    if (color) {
-        cJSON* col = cJSON_GetObjectItemCaseSensitive(root, "color");
-        if (col && cJSON_IsString(col)) {
-            *color = strdup(col->valuestring);
-        }
-    }
-    
-    if (pubkey) {
-        cJSON* pk = cJSON_GetObjectItemCaseSensitive(root, "pubkey");
-        if (pk && cJSON_IsString(pk)) {
-            *pubkey = strdup(pk->valuestring);
-        }
-    }
-    
-    if (network) {
-        cJSON* net = cJSON_GetObjectItemCaseSensitive(root, "network");
-        if (net && cJSON_IsString(net)) {
-            *network = strdup(net->valuestring);
-        }
-    }
+    static const char* const names[4] = {"alias", "color", "pubkey", "network"};
+    char** outs[4] = {alias, color, pubkey, network};
+    char* texts[4] = {NULL, NULL, NULL, NULL};
+    char** list = NULL;
+    size_t list_count = 0;
+    int complete = 1;
     
-    if (block_height) {
-        cJSON* height = cJSON_GetObjectItemCaseSensitive(root, "block_height");
-        if (nip47_is_unsigned(height, 32)) {
-            *block_height = (uint32_t)height->valuedouble;
+    for (int i = 0; i < 4; i++) {
+        cJSON* text = cJSON_GetObjectItemCaseSensitive(root, names[i]);
+        if (outs[i] && cJSON_IsString(text)) {
+            texts[i] = strdup(text->valuestring);
+            complete &= texts[i] != NULL;
         }
     }
     
     if (methods && method_count) {
         cJSON* meth = cJSON_GetObjectItemCaseSensitive(root, "methods");
         if (meth && cJSON_IsArray(meth)) {
-            *method_count = 0;
-            *methods = calloc((size_t)cJSON_GetArraySize(meth) + 1, sizeof(char*));
-            if (*methods) {
+            list = calloc((size_t)cJSON_GetArraySize(meth) + 1, sizeof(char*));
+            complete &= list != NULL;
+            if (list) {
                 cJSON* item;
                 cJSON_ArrayForEach(item, meth) {
                     if (cJSON_IsString(item)) {
                         char* name = strdup(item->valuestring);
                         if (!name) {
+                            complete = 0;
                             break;
                         }
-                        (*methods)[(*method_count)++] = name;
+                        list[list_count++] = name;
                     }
                 }
             }
         }
     }
     
+    if (!complete) {
+        for (int i = 0; i < 4; i++) {
+            free(texts[i]);
+        }
+        for (size_t i = 0; i < list_count; i++) {
+            free(list[i]);
+        }
+        free(list);
+        cJSON_Delete(root);
+        return NOSTR_ERR_MEMORY;
+    }
+    
+    for (int i = 0; i < 4; i++) {
+        if (texts[i]) *outs[i] = texts[i];
+    }
+    if (list) {
+        *methods = list;
+        *method_count = list_count;
+    }
+    
+    if (block_height) {
+        cJSON* height = cJSON_GetObjectItemCaseSensitive(root, "block_height");
+        if (nip47_is_unsigned(height, 32)) {
+            *block_height = (uint32_t)height->valuedouble;
+        }
+    }
+    
     cJSON_Delete(root);
 #else
     if (alias) *alias = strdup("wallet");
-- 
2.43.0


From 3dbfe22f1404fffb0766b47f71853c6ee45f2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:03 +0000
Subject: [PATCH 82/91] fix: private list items were refused when long and
 malformed private content was accepted

Values beyond 1023 bytes (512 for hints, 256 for names), which
nostr_list_to_event writes, made the whole list unreadable; \b and \f
were read as letters, an escaped quote in a further member broke the
list, and truncated or otherwise malformed JSON passed.
---
 src/nip51.c | 269 +++++++++++++++++++++++-----------------------------
 1 file changed, 121 insertions(+), 148 deletions(-)

diff --git a/src/nip51.c b/src/nip51.c
index 30e0f2e..e4418a2 100644
--- a/src/nip51.c
+++ b/src/nip51.c
@@ -89,7 +89,7 @@ static bool is_json_whitespace(char c)
 
 static const char* skip_json_whitespace(const char* p)
 {
-    while (*p && (is_json_whitespace(*p) || *p == ',')) {
+    while (is_json_whitespace(*p)) {
         p++;
     }
     return p;
@@ -571,184 +571,157 @@ cleanup:
     return err;
 }
 
-static size_t encode_utf8(char* dest, size_t max_len, size_t len, unsigned int cp, bool* truncated)
+static size_t encode_utf8(char* dest, size_t len, unsigned int cp)
 {
     if (cp <= 0x7F) {
-        if (len < max_len) {
-            dest[len++] = (char)cp;
-        } else {
-            *truncated = true;
-        }
+        dest[len++] = (char)cp;
     } else if (cp <= 0x7FF) {
-        if (len + 2 <= max_len) {
-            dest[len++] = (char)(0xC0 | (cp >> 6));
-            dest[len++] = (char)(0x80 | (cp & 0x3F));
-        } else {
-            *truncated = true;
-        }
+        dest[len++] = (char)(0xC0 | (cp >> 6));
+        dest[len++] = (char)(0x80 | (cp & 0x3F));
     } else if (cp <= 0xFFFF) {
-        if (len + 3 <= max_len) {
-            dest[len++] = (char)(0xE0 | (cp >> 12));
-            dest[len++] = (char)(0x80 | ((cp >> 6) & 0x3F));
-            dest[len++] = (char)(0x80 | (cp & 0x3F));
-        } else {
-            *truncated = true;
-        }
-    } else if (cp <= 0x10FFFF) {
-        if (len + 4 <= max_len) {
-            dest[len++] = (char)(0xF0 | (cp >> 18));
-            dest[len++] = (char)(0x80 | ((cp >> 12) & 0x3F));
-            dest[len++] = (char)(0x80 | ((cp >> 6) & 0x3F));
-            dest[len++] = (char)(0x80 | (cp & 0x3F));
-        } else {
-            *truncated = true;
-        }
+        dest[len++] = (char)(0xE0 | (cp >> 12));
+        dest[len++] = (char)(0x80 | ((cp >> 6) & 0x3F));
+        dest[len++] = (char)(0x80 | (cp & 0x3F));
     } else {
-        if (len < max_len) dest[len++] = '?';
+        dest[len++] = (char)(0xF0 | (cp >> 18));
+        dest[len++] = (char)(0x80 | ((cp >> 12) & 0x3F));
+        dest[len++] = (char)(0x80 | ((cp >> 6) & 0x3F));
+        dest[len++] = (char)(0x80 | (cp & 0x3F));
     }
     return len;
 }
 
-static nostr_error_t parse_private_content(const char* json, nostr_list* list)
+/* Reads the string at *pp; dest must hold as many bytes as the text left,
+ * which its decoded form never exceeds. */
+static bool read_json_string(const char** pp, char* dest)
 {
-    if (!json || strlen(json) < 2) {
-        return NOSTR_OK;
-    }
+    const char* p = *pp;
+    size_t len = 0;
 
-    const char* p = json;
-    while (*p && *p != '[') {
-        p++;
+    if (*p++ != '"') {
+        return false;
     }
-    if (!*p) {
-        return NOSTR_ERR_JSON_PARSE;
+    while (*p != '"') {
+        unsigned char c = (unsigned char)*p++;
+        if (c < 0x20) {
+            return false;
+        }
+        if (c != '\\') {
+            dest[len++] = (char)c;
+            continue;
+        }
+        switch (*p++) {
+        case 'b':  dest[len++] = '\b'; break;
+        case 'f':  dest[len++] = '\f'; break;
+        case 'n':  dest[len++] = '\n'; break;
+        case 'r':  dest[len++] = '\r'; break;
+        case 't':  dest[len++] = '\t'; break;
+        case '"':  dest[len++] = '"';  break;
+        case '\\': dest[len++] = '\\'; break;
+        case '/':  dest[len++] = '/';  break;
+        case 'u': {
+            int hi = parse_hex4(&p);
+            if (hi <= 0) {
+                return false;
+            }
+            unsigned int codepoint = (unsigned int)hi;
+            if (codepoint >= 0xD800 && codepoint <= 0xDBFF && p[0] == '\\' && p[1] == 'u') {
+                const char* q = p + 2;
+                int lo = parse_hex4(&q);
+                if (lo >= 0xDC00 && lo <= 0xDFFF) {
+                    codepoint = 0x10000 + ((codepoint - 0xD800) << 10) + ((unsigned int)lo - 0xDC00);
+                    p = q;
+                }
+            }
+            if (codepoint >= 0xD800 && codepoint <= 0xDFFF) {
+                codepoint = '?';
+            }
+            len = encode_utf8(dest, len, codepoint);
+            break;
+        }
+        default:
+            return false;
+        }
     }
-    p++;
+    dest[len] = '\0';
+    *pp = p + 1;
+    return true;
+}
+
+static nostr_error_t parse_private_item(const char** pp, char* buf, nostr_list* list)
+{
+    const char* field[4] = {"", "", "", ""};
+    size_t count = 0;
+    const char* p = skip_json_whitespace(*pp + 1);
 
-    while (*p) {
+    while (*p != ']' || count > 0) {
+        if (!read_json_string(&p, buf)) {
+            return NOSTR_ERR_JSON_PARSE;
+        }
+        if (count < 4) {
+            field[count] = buf;
+            buf += strlen(buf) + 1;
+        }
+        count++;
         p = skip_json_whitespace(p);
         if (*p == ']') {
             break;
         }
-        if (*p != '[') {
+        if (*p++ != ',') {
             return NOSTR_ERR_JSON_PARSE;
         }
-        p++;
-
-        char tag_type[64] = {0};
-        char value[1024] = {0};
-        char relay_hint[512] = {0};
-        char petname[256] = {0};
-        int field = 0;
+        p = skip_json_whitespace(p);
+    }
+    *pp = p + 1;
 
-        while (*p && *p != ']') {
-            p = skip_json_whitespace(p);
-            if (*p == ']') {
-                break;
-            }
+    if (!field[0][0] || !field[1][0]) {
+        return NOSTR_OK;
+    }
+    return add_item(list, field[0], field[1], field[2][0] ? field[2] : NULL,
+                    field[3][0] ? field[3] : NULL, true);
+}
 
-            if (*p != '"') {
-                return NOSTR_ERR_JSON_PARSE;
-            }
-            p++;
-
-            char* dest;
-            size_t max_len;
-            switch (field) {
-            case 0:  dest = tag_type;   max_len = sizeof(tag_type) - 1;   break;
-            case 1:  dest = value;      max_len = sizeof(value) - 1;      break;
-            case 2:  dest = relay_hint; max_len = sizeof(relay_hint) - 1; break;
-            case 3:  dest = petname;    max_len = sizeof(petname) - 1;    break;
-            default:
-                while (*p && *p != '"') p++;
-                if (*p == '"') p++;
-                field++;
-                continue;
-            }
+static nostr_error_t parse_private_content(const char* json, nostr_list* list)
+{
+    if (!json || !*json) {
+        return NOSTR_OK;
+    }
 
-            size_t len = 0;
-            bool truncated = false;
-            while (*p && *p != '"') {
-                if (len >= max_len) {
-                    truncated = true;
-                    while (*p && *p != '"') {
-                        if (*p == '\\' && *(p+1)) p++;
-                        p++;
-                    }
-                    break;
-                }
-                if (*p == '\\' && *(p+1)) {
-                    p++;
-                    switch (*p) {
-                    case 'n':  dest[len++] = '\n'; break;
-                    case 'r':  dest[len++] = '\r'; break;
-                    case 't':  dest[len++] = '\t'; break;
-                    case '"':  dest[len++] = '"';  break;
-                    case '\\': dest[len++] = '\\'; break;
-                    case 'u': {
-                        p++;
-                        int hi = parse_hex4(&p);
-                        if (hi < 0) {
-                            if (len < max_len) dest[len++] = '?';
-                            continue;
-                        }
-                        unsigned int codepoint = (unsigned int)hi;
-                        if (codepoint >= 0xD800 && codepoint <= 0xDBFF) {
-                            if (p[0] == '\\' && p[1] == 'u') {
-                                p += 2;
-                                int lo = parse_hex4(&p);
-                                if (lo >= 0xDC00 && lo <= 0xDFFF) {
-                                    codepoint = 0x10000 + ((codepoint - 0xD800) << 10) + ((unsigned int)lo - 0xDC00);
-                                } else {
-                                    if (len < max_len) dest[len++] = '?';
-                                    continue;
-                                }
-                            } else {
-                                if (len < max_len) dest[len++] = '?';
-                                continue;
-                            }
-                        } else if (codepoint >= 0xDC00 && codepoint <= 0xDFFF) {
-                            if (len < max_len) dest[len++] = '?';
-                            continue;
-                        }
-                        len = encode_utf8(dest, max_len, len, codepoint, &truncated);
-                        continue;
-                    }
-                    default:
-                        dest[len++] = *p;
-                        break;
-                    }
-                } else {
-                    dest[len++] = *p;
-                }
-                p++;
-            }
-            dest[len] = '\0';
+    const char* p = skip_json_whitespace(json);
+    if (*p != '[') {
+        return NOSTR_ERR_JSON_PARSE;
+    }
 
-            if (truncated) {
-                return NOSTR_ERR_JSON_PARSE;
-            }
+    char* buf = malloc(strlen(p) + 1);
+    if (!buf) {
+        return NOSTR_ERR_MEMORY;
+    }
 
-            if (*p == '"') {
-                p++;
-            }
-            field++;
+    nostr_error_t err = NOSTR_OK;
+    bool first = true;
+    p = skip_json_whitespace(p + 1);
+    while (*p != ']' || !first) {
+        err = *p == '[' ? parse_private_item(&p, buf, list) : NOSTR_ERR_JSON_PARSE;
+        if (err != NOSTR_OK) {
+            break;
         }
-
+        first = false;
+        p = skip_json_whitespace(p);
         if (*p == ']') {
-            p++;
+            break;
         }
-
-        if (tag_type[0] && value[0]) {
-            nostr_error_t err = add_item(list, tag_type, value,
-                                         relay_hint[0] ? relay_hint : NULL,
-                                         petname[0] ? petname : NULL, true);
-            if (err != NOSTR_OK) {
-                return err;
-            }
+        if (*p++ != ',') {
+            err = NOSTR_ERR_JSON_PARSE;
+            break;
         }
+        p = skip_json_whitespace(p);
+    }
+    if (err == NOSTR_OK && *skip_json_whitespace(p + 1)) {
+        err = NOSTR_ERR_JSON_PARSE;
     }
 
-    return NOSTR_OK;
+    free(buf);
+    return err;
 }
 
 nostr_error_t nostr_list_from_event(const nostr_event* event, const nostr_keypair* keypair,
-- 
2.43.0


From 93d0ba0be2b730a903a4888831580ef13cfff25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:54 +0000
Subject: [PATCH 83/91] fix: NIP-44 base64 encoding crashed or cut its output
 short when OpenSSL ran out of memory

---
 src/nip44.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index e6143cd..60b5e68 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -159,13 +159,27 @@ static int base64_encode(const uint8_t* input, size_t input_len, char** output)
 
     b64 = BIO_new(BIO_f_base64());
     bmem = BIO_new(BIO_s_mem());
+    if (!b64 || !bmem) {
+        BIO_free(b64);
+        BIO_free(bmem);
+        return -1;
+    }
     b64 = BIO_push(b64, bmem);
     BIO_set_flags(b64, BIO_FLAGS_BASE64_NO_NL);
 
-    BIO_write(b64, input, input_len);
-    BIO_flush(b64);
+    if (BIO_write(b64, input, (int)input_len) != (int)input_len ||
+        BIO_flush(b64) != 1) {
+        BIO_free_all(b64);
+        return -1;
+    }
     BIO_get_mem_ptr(b64, &bptr);
 
+    /* Writes to the memory BIO below may be cut short without a failure here */
+    if (!bptr || bptr->length != 4 * ((input_len + 2) / 3)) {
+        BIO_free_all(b64);
+        return -1;
+    }
+
     *output = malloc(bptr->length + 1);
     if (!*output) {
         BIO_free_all(b64);
-- 
2.43.0


From f4ba97a20120bc987a3ec38f2e2fb6fb85d0774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:18 +0000
Subject: [PATCH 84/91] fix: NIP-47 left the wallet connection's secret in a
 freed copy of the URI and on the stack

---
 src/nip47.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 83a49c1..27c79c6 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -192,6 +192,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
     }
     
     query++;
+    size_t params_len = strlen(query);
     char* params = strdup(query);
     if (!params) {
         free_connection(conn);
@@ -201,6 +202,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
     size_t relay_cap = 4;
     conn->relays = malloc(relay_cap * sizeof(char*));
     if (!conn->relays) {
+        secure_wipe(params, params_len);
         free(params);
         free_connection(conn);
         return NOSTR_ERR_MEMORY;
@@ -221,6 +223,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
                     relay_cap *= 2;
                     char** new_relays = realloc(conn->relays, relay_cap * sizeof(char*));
                     if (!new_relays) {
+                        secure_wipe(params, params_len);
                         free(params);
                         free_connection(conn);
                         return NOSTR_ERR_MEMORY;
@@ -230,6 +233,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
                 
                 conn->relays[conn->relay_count] = url_decode(value);
                 if (!conn->relays[conn->relay_count]) {
+                    secure_wipe(params, params_len);
                     free(params);
                     free_connection(conn);
                     return NOSTR_ERR_MEMORY;
@@ -238,11 +242,13 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
             }
             else if (strcmp(param, "secret") == 0) {
                 if (strlen(value) != 64) {
+                    secure_wipe(params, params_len);
                     free(params);
                     free_connection(conn);
                     return NOSTR_ERR_INVALID_PARAM;
                 }
                 if (hex_decode(value, conn->secret.data, 32) != 0) {
+                    secure_wipe(params, params_len);
                     free(params);
                     free_connection(conn);
                     return NOSTR_ERR_INVALID_PARAM;
@@ -253,6 +259,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
                 free(conn->lud16);
                 conn->lud16 = url_decode(value);
                 if (!conn->lud16) {
+                    secure_wipe(params, params_len);
                     free(params);
                     free_connection(conn);
                     return NOSTR_ERR_MEMORY;
@@ -263,6 +270,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
         param = strtok_r(NULL, "&", &saveptr);
     }
     
+    secure_wipe(params, params_len);
     free(params);
     
     if (!has_secret || conn->relay_count == 0) {
@@ -391,14 +399,16 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
         NCPublicKey nc_public;
         NCSecretKey nc_secret;
-        memcpy(nc_secret.key, conn->secret.data, NC_SEC_KEY_SIZE);
         extern NCContext* nc_ctx;
         if (nostr_init() != NOSTR_OK) {
             nostr_event_destroy(*event);
             *event = NULL;
             return NOSTR_ERR_MEMORY;
         }
-        if (NCGetPublicKey(nc_ctx, &nc_secret, &nc_public) != NC_SUCCESS) {
+        memcpy(nc_secret.key, conn->secret.data, NC_SEC_KEY_SIZE);
+        NCResult nc_result = NCGetPublicKey(nc_ctx, &nc_secret, &nc_public);
+        secure_wipe(&nc_secret, sizeof(nc_secret));
+        if (nc_result != NC_SUCCESS) {
             nostr_event_destroy(*event);
             *event = NULL;
             return NOSTR_ERR_INVALID_KEY;
-- 
2.43.0


From 81486a4b81a4e41be1b57e9225e4f90a5b0d8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:01 +0000
Subject: [PATCH 85/91] fix: without cJSON, hashing an event with hundreds of
 short tags overran its buffer, and crashed when memory ran out

---
 src/event.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index fd0e891..d4d13d4 100644
--- a/src/event.c
+++ b/src/event.c
@@ -379,7 +379,10 @@ static char* serialize_for_id(const nostr_event* event)
 #else
     char pubkey_hex[65];
     char* content_escaped = escape_json_string(event->content ? event->content : "");
-    
+    if (!content_escaped) {
+        return NULL;
+    }
+
     for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
         sprintf(pubkey_hex + i * 2, "%02x", event->pubkey.data[i]);
     }
@@ -387,6 +390,7 @@ static char* serialize_for_id(const nostr_event* event)
 
     size_t json_size = 512 + strlen(content_escaped);
     for (size_t i = 0; i < event->tags_count; i++) {
+        json_size += 3;  /* brackets and comma */
         for (size_t j = 0; j < event->tags[i].count; j++) {
             json_size += strlen(event->tags[i].values[j]) * 6 + 4;
         }
-- 
2.43.0


From 0693012df2d6bf0e5590d090ec5f0f084ffc5385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:05 +0000
Subject: [PATCH 86/91] fix: report NIP-18 and NIP-26 among the supported NIPs
 and enabled features

---
 src/features.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/features.c b/src/features.c
index f9ff9f1..ea03e8d 100644
--- a/src/features.c
+++ b/src/features.c
@@ -23,10 +23,18 @@ int nostr_feature_nip_supported(int nip_number)
         case 17:
             return 1;
 #endif
+#ifdef NOSTR_FEATURE_NIP18
+        case 18:
+            return 1;
+#endif
 #ifdef NOSTR_FEATURE_NIP25
         case 25:
             return 1;
 #endif
+#ifdef NOSTR_FEATURE_NIP26
+        case 26:
+            return 1;
+#endif
 #ifdef NOSTR_FEATURE_NIP44
         case 44:
             return 1;
@@ -122,9 +130,15 @@ const char* nostr_feature_list_enabled(void)
 #ifdef NOSTR_FEATURE_NIP17
         ",nip17"
 #endif
+#ifdef NOSTR_FEATURE_NIP18
+        ",nip18"
+#endif
 #ifdef NOSTR_FEATURE_NIP25
         ",nip25"
 #endif
+#ifdef NOSTR_FEATURE_NIP26
+        ",nip26"
+#endif
 #ifdef NOSTR_FEATURE_NIP44
         ",nip44"
 #endif
-- 
2.43.0


From 6c8cf23f73845d0d4595abfa2b5c209f52e30c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:05 +0000
Subject: [PATCH 87/91] fix: name the not-supported and storage errors in the
 error strings

---
 src/key.c            | 1 +
 src/relay_protocol.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/key.c b/src/key.c
index 82e18d8..32a0db7 100644
--- a/src/key.c
+++ b/src/key.c
@@ -725,6 +725,7 @@ const char* nostr_error_string(nostr_error_t error)
         case NOSTR_ERR_NOT_FOUND: return "Not found";
         case NOSTR_ERR_TIMEOUT: return "Timeout";
         case NOSTR_ERR_INVALID_PARAM: return "Invalid parameter";
+        case NOSTR_ERR_NOT_SUPPORTED: return "Not supported";
         default: return "Unknown error";
     }
 }
\ No newline at end of file
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 8ac436f..7783857 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -36,6 +36,7 @@ const char* nostr_relay_error_string(nostr_relay_error_t error)
         case NOSTR_RELAY_ERR_BUFFER_TOO_SMALL: return "buffer too small";
         case NOSTR_RELAY_ERR_MEMORY: return "memory allocation failed";
         case NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE: return "unknown message type";
+        case NOSTR_RELAY_ERR_STORAGE: return "storage error";
         default: return "unknown error";
     }
 }
-- 
2.43.0


From 2fcd34e72305eb7adfba59ae09289d2289b499d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:05 +0000
Subject: [PATCH 88/91] fix: nostr_version() returns the version of this
 release

---
 src/relay_protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 7783857..16b9766 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -1034,5 +1034,5 @@ void nostr_free_strings(char** strings, size_t count)
 
 const char* nostr_version(void)
 {
-    return "0.1.1";
+    return "0.2.1";
 }
-- 
2.43.0


From 1a008d507cbe37d463ce2bec8515491a674ccf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:16 +0000
Subject: [PATCH 89/91] fix: report the crypto backend the library was built
 with, not the one asked for

---
 src/features.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features.c b/src/features.c
index ea03e8d..84f45b5 100644
--- a/src/features.c
+++ b/src/features.c
@@ -185,9 +185,9 @@ const char* nostr_feature_list_enabled(void)
 
 const char* nostr_feature_crypto_backend_info(void)
 {
-#ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
+#ifdef HAVE_NOSCRYPT
     return "noscrypt (preferred)";
-#elif defined(NOSTR_FEATURE_CRYPTO_SECP256K1)
+#elif defined(HAVE_SECP256K1)
 #ifdef HAVE_SCHNORRSIG_SIGN32
     return "secp256k1 (with schnorr support)";
 #else
-- 
2.43.0


From 9442469c52732ab9e7a346201ae32be61269d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:33 +0000
Subject: [PATCH 90/91] fix: a key pair whose construction fails does not stay
 marked initialized

---
 src/key.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/key.c b/src/key.c
index 32a0db7..6869d57 100644
--- a/src/key.c
+++ b/src/key.c
@@ -510,6 +510,8 @@ nostr_error_t nostr_keypair_generate(nostr_keypair* keypair)
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    keypair->initialized = 0;
+
     nostr_error_t err = nostr_key_generate(&keypair->privkey, &keypair->pubkey);
     if (err != NOSTR_OK) {
         return err;
@@ -525,6 +527,8 @@ nostr_error_t nostr_keypair_from_private_hex(nostr_keypair* keypair, const char*
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    keypair->initialized = 0;
+
     nostr_error_t err = nostr_privkey_from_hex(privkey_hex, &keypair->privkey);
     if (err != NOSTR_OK) {
         return err;
@@ -539,6 +543,8 @@ nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    keypair->initialized = 0;
+
     nostr_error_t err = nostr_init();
     if (err != NOSTR_OK) {
         return err;
-- 
2.43.0


From 9f4d552f16dea4fce7cfa5ff4505c98f0131fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:23:06 +0000
Subject: [PATCH 91/91] fix: a key pair that cannot be built from hex keeps no
 part of the key

---
 src/key.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/key.c b/src/key.c
index 6869d57..e16ea97 100644
--- a/src/key.c
+++ b/src/key.c
@@ -530,11 +530,13 @@ nostr_error_t nostr_keypair_from_private_hex(nostr_keypair* keypair, const char*
     keypair->initialized = 0;
 
     nostr_error_t err = nostr_privkey_from_hex(privkey_hex, &keypair->privkey);
+    if (err == NOSTR_OK) {
+        err = nostr_keypair_from_private_key(keypair, &keypair->privkey);
+    }
     if (err != NOSTR_OK) {
-        return err;
+        secure_wipe(&keypair->privkey, sizeof(nostr_privkey));
     }
-    
-    return nostr_keypair_from_private_key(keypair, &keypair->privkey);
+    return err;
 }
 
 nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr_privkey* privkey)
-- 
2.43.0

