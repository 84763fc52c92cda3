From ecc5185549110c232f05b6a5ac62eb5dd879436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:20 +0000
Subject: [PATCH 01/52] fix: hashmap: store NULL to *p_res when put/memoize
 runs out of memory

The header promises that; callers saw an uninitialized previous value.
---
 src/hashmap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hashmap.c b/src/hashmap.c
index 8a73998..4f70938 100644
--- a/src/hashmap.c
+++ b/src/hashmap.c
@@ -197,6 +197,9 @@ int hashmapPut(Hashmap* map, void* key, void* value, void ** p_res) {
         if (current == NULL) {
             *p = createEntry(key, hash, value);
             if (*p == NULL) {
+                if (p_res != NULL) {
+                    *p_res = NULL;
+                }
                 return -(ENOMEM);
             }
             map->size++;
@@ -255,6 +258,9 @@ int hashmapMemoize(Hashmap* map, void* key,
         if (current == NULL) {
             *p = createEntry(key, hash, NULL);
             if (*p == NULL) {
+                if (p_res != NULL) {
+                    *p_res = NULL;
+                }
                 return -(ENOMEM);
             }
             void* value = initialValue(key, context);
-- 
2.43.0


From bc0cc2509834ac96b1000c7b356f9f80342aa960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:20 +0000
Subject: [PATCH 02/52] fix: iterator: allow to append dependencies after the
 queue was drained

last_dep was left pointing to the freed entry and the next append asserted.
---
 src/iterator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iterator.c b/src/iterator.c
index 4d4738a..1ed9015 100644
--- a/src/iterator.c
+++ b/src/iterator.c
@@ -284,6 +284,9 @@ void * metac_recursive_iterator_dequeue_and_delete_dep(metac_recursive_iterator_
     recursive_iterator_entry_t * p_entry = LIST_FIRST(&p_iterator->p_current->deps);
     assert(metac_r_iter_state_is_end(p_entry->state));
     LIST_REMOVE(p_entry, links);
+    if (LIST_EMPTY(&p_iterator->p_current->deps)) {
+        p_iterator->p_current->last_dep = NULL; // p_entry was the last one, don't keep a dangling pointer
+    }
 
     void * p_out = metac_recursive_iterator_entry_get_out(p_entry, pp_in, p_fail);
     metac_recursive_iterator_entry_free(p_entry);
-- 
2.43.0


From 5dcf9bc6a0ce16a45a770836809d48585947c2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:20 +0000
Subject: [PATCH 03/52] fix: iterator: accept NULL in
 metac_recursive_iterator_free

metac_new_recursive_iterator returns NULL when it's out of memory, and the
functions which use it call free unconditionally.
---
 src/iterator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iterator.c b/src/iterator.c
index 1ed9015..fc4d859 100644
--- a/src/iterator.c
+++ b/src/iterator.c
@@ -85,6 +85,9 @@ metac_recursive_iterator_t * metac_new_recursive_iterator(void * p_in) {
 }
 
 void metac_recursive_iterator_free(metac_recursive_iterator_t * p_iterator) {
+    if (p_iterator == NULL) {
+        return;
+    }
     metac_cleanup_recursive_iterator_entry(&p_iterator->recursive_iterator_entry);
     free(p_iterator);
 }
-- 
2.43.0


From 37769363fb2c463ca24ff9574a896017422d4ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:55 +0000
Subject: [PATCH 04/52] fix: value: read and write bit-fields which are wide or
 straddle their type's bytes

1 << bit_size was computed as int, so fields of 31 bits and more were read
as garbage, and only sizeof(type) bytes were accessed, so fields of packed
structures that occupy one more byte lost their upper bits.
---
 src/value.c | 73 +++++++++++++++++++++++++----------------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/src/value.c b/src/value.c
index 1d15d06..7216de8 100644
--- a/src/value.c
+++ b/src/value.c
@@ -111,6 +111,11 @@ static metac_flag_t _entry_bitfield_supported(metac_encoding_t encoding) {
     return 1;
 }
 
+/* index of the byte with the given bit of the bit-field's storage */
+static metac_offset_t _bitfield_byte(metac_offset_t bit, metac_size_t var_size) {
+    return IS_LITTLE_ENDIAN ? bit / 8 : var_size - 1 - bit / 8;
+}
+
 /**
  * read bitfield to normal var
  * Note: base_addr pointing on the beginning of structure; 
@@ -122,33 +127,30 @@ static int _entry_bitfield_read(metac_entry_t *p_memb_entry, void * base_addr, v
     metac_offset_t byte_offset;
     metac_offset_t bit_offset;
     metac_offset_t bit_size;
-    uint8_t buf[16];
 
     _check_(metac_entry_member_bitfield_offsets(p_memb_entry, &byte_offset, &bit_offset, &bit_size) != 0, -(EINVAL));
+    _check_(bit_size == 0 || bit_size > 8 * var_size || bit_size > 8 * sizeof(uint64_t), -(EINVAL));
 
-     /* TODO: Caution: this has been tested only with little-endian machines*/
-    if (IS_LITTLE_ENDIAN) {
-        base_addr += byte_offset;
-        // read only number of bytes that we really need
-        // TODO: make it without extra copy if possible
-        // TODO: need to make it for both endians
-        assert(bit_size != 0);
-        memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1);
-        base_addr = buf;
-    } else {
-        base_addr += byte_offset;
+    /* TODO: Caution: this has been tested only with little-endian machines*/
+    if (!IS_LITTLE_ENDIAN) {
         bit_offset = 8 * var_size - (bit_offset + bit_size);
     }
 
+    /* the field may occupy more bytes than its type has (e.g. in packed structures), so go by bits */
+    uint8_t * p_bytes = (uint8_t *)base_addr + byte_offset;
+    uint64_t bits = 0;
+    for (metac_offset_t i = 0; i < bit_size; ++i) {
+        if (p_bytes[_bitfield_byte(bit_offset + i, var_size)] & (1 << ((bit_offset + i) & 0x7))) {
+            bits |= ((uint64_t)1) << i;
+        }
+    }
+    if (correct_sign && bit_size < 64 && (bits & (((uint64_t)1) << (bit_size - 1)))) {
+        bits |= (~(uint64_t)0) << bit_size;
+    }
+
 #define _read_(_type_) \
     do{ \
-        _type_ data = *((_type_*)base_addr); \
-        data = (data >> bit_offset) & ((1 << bit_size) - 1); \
-        \
-        if ((correct_sign) && (data & (1 << (bit_size-1)))) { \
-            data = ((-1) << ((bit_size))) ^ data; \
-        } \
-        *((_type_*)p_var) = data; \
+        *((_type_*)p_var) = (_type_)bits; \
     } while(0)
 
     if (var_size == sizeof(unsigned char)) {
@@ -176,30 +178,20 @@ static int _entry_bitfield_write(metac_entry_t *p_memb_entry, void * base_addr,
     metac_offset_t byte_offset;
     metac_offset_t bit_offset;
     metac_offset_t bit_size;
-    void * base_addr_orig = NULL;
-    uint8_t buf[16];
 
     _check_(metac_entry_member_bitfield_offsets(p_memb_entry, &byte_offset, &bit_offset, &bit_size) != 0, -(EINVAL));
+    _check_(bit_size == 0 || bit_size > 8 * var_size || bit_size > 8 * sizeof(uint64_t), -(EINVAL));
 
-     /* TODO: Caution: this has been tested only with little-endian machines*/
-    if (IS_LITTLE_ENDIAN) {
-        base_addr += byte_offset;
-        // write only number of bytes that we really need
-        // TODO: make it without extra copy if possible
-        // TODO: need to make it for both endians
-        assert(bit_size != 0);
-        base_addr_orig = base_addr;
-        memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1);
-        base_addr = buf;
-    } else {
-        base_addr += byte_offset;
+    /* TODO: Caution: this has been tested only with little-endian machines*/
+    if (!IS_LITTLE_ENDIAN) {
         bit_offset = 8 * var_size - (bit_offset + bit_size);
     }
 
+    uint64_t bits = 0;
+
 #define _write_(_type_) \
     do { \
-        _type_ data = ((*(_type_*)p_var) & ((1 << bit_size) - 1)) << bit_offset; \
-        *((_type_*)base_addr) = *((_type_*)base_addr) & (~(((1 << bit_size) - 1) << bit_offset )) | data;\
+        bits = *(_type_*)p_var; \
     } while (0)
 
     if (var_size == sizeof(unsigned char)) {
@@ -217,9 +209,14 @@ static int _entry_bitfield_write(metac_entry_t *p_memb_entry, void * base_addr,
     }
 #undef _write_
 
-    if (IS_LITTLE_ENDIAN) {
-        // write back only needed data
-        memcpy(base_addr_orig, buf, (bit_offset + bit_size-1)/8 +1);
+    uint8_t * p_bytes = (uint8_t *)base_addr + byte_offset;
+    for (metac_offset_t i = 0; i < bit_size; ++i) {
+        uint8_t mask = 1 << ((bit_offset + i) & 0x7);
+        if (bits & (((uint64_t)1) << i)) {
+            p_bytes[_bitfield_byte(bit_offset + i, var_size)] |= mask;
+        } else {
+            p_bytes[_bitfield_byte(bit_offset + i, var_size)] &= ~mask;
+        }
     }
 
     return 0;
-- 
2.43.0


From 952a636905f3b4f3bae012eb08c750105688a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:09 +0000
Subject: [PATCH 05/52] fix: value: read and write enumeration bit-fields as
 bit-fields

The whole storage of the enumeration type was read and written, including
the neighbouring bit-fields.
---
 src/value.c | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/value.c b/src/value.c
index 7216de8..085d88e 100644
--- a/src/value.c
+++ b/src/value.c
@@ -469,6 +469,27 @@ struct metac_type_enumerator_info const * metac_value_enumeration_info(metac_val
     return metac_entry_enumeration_info(p_final_entry, id);
 }
 
+static metac_flag_t _value_is_bitfield(metac_value_t * p_val, metac_offset_t * p_struct_offset) {
+    struct metac_member_raw_location_info raw_info;
+    if (metac_entry_kind(p_val->p_entry) != METAC_KND_member ||
+        metac_entry_member_raw_location_info(p_val->p_entry, &raw_info) != 0 ||
+        raw_info.p_bit_size == NULL) {
+        return 0;
+    }
+    *p_struct_offset = raw_info.byte_offset;
+    return 1;
+}
+
+static metac_flag_t _enumeration_is_signed(metac_entry_t * p_final_entry) {
+    for (metac_num_t i = 0; i < metac_entry_enumeration_info_size(p_final_entry); ++i) {
+        struct metac_type_enumerator_info const * p_info = metac_entry_enumeration_info(p_final_entry, i);
+        if (p_info != NULL && p_info->const_value < 0) {
+            return 1;
+        }
+    }
+    return 0;
+}
+
 int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
     _check_(p_var == NULL, -(EINVAL));
 
@@ -481,6 +502,18 @@ int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
         return -(EFAULT);
     }
 
+    metac_offset_t struct_offset = 0;
+    if (_value_is_bitfield(p_val, &struct_offset) != 0) {
+        uint64_t data = 0;
+        metac_flag_t is_signed = _enumeration_is_signed(p_final_entry);
+        int err = _entry_bitfield_read(p_val->p_entry, p_val->addr - struct_offset, &data, sizeof(data), is_signed);
+        if (err != 0) {
+            return err;
+        }
+        *p_var = (metac_const_value_t)data;
+        return 0;
+    }
+
     if (enum_byte_size == sizeof(char)) {
         *p_var = *(char*)p_val->addr;
         return 0;
@@ -519,6 +552,12 @@ int metac_value_set_enumeration(metac_value_t * p_val, metac_const_value_t var)
         return -(EFAULT);
     }
 
+    metac_offset_t struct_offset = 0;
+    if (_value_is_bitfield(p_val, &struct_offset) != 0) {
+        uint64_t data = (uint64_t)var;
+        return _entry_bitfield_write(p_val->p_entry, p_val->addr - struct_offset, &data, sizeof(data));
+    }
+
     if (enum_byte_size == sizeof(char)) {
         *(char*)p_val->addr = (char)var;
         return 0;
-- 
2.43.0


From 11c25b9b1c8759ce345c87f95bd6902bdc50f415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:30 +0000
Subject: [PATCH 06/52] fix: value_string: fail when memory runs out instead of
 giving a wrong text or crashing

The result of appending a dependency was ignored (a member or element got
lost from the text and from memory), a string which couldn't be allocated was
printed as an array, and va_list handling released the text twice.
---
 src/value_string.c | 68 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index 2844c7c..a972dbc 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -11,7 +11,8 @@ dsprintf_render_with_buf(64)
 #define dsprintf(_x_...) dsprintf64( _x_)
 #endif
 
-static char * _dprintable_string(metac_value_t * p_array_val) {
+/* returns NULL if the array isn't a printable string, or, with *p_failed set, if there is no memory */
+static char * _dprintable_string(metac_value_t * p_array_val, metac_flag_t * p_failed) {
     if (p_array_val == NULL || metac_value_has_elements(p_array_val) ==0 ) {
         return NULL;
     }
@@ -78,6 +79,7 @@ static char * _dprintable_string(metac_value_t * p_array_val) {
 
     char * res = calloc(alloc_len, sizeof(char));
     if (res == NULL) {
+        *p_failed = 1;
         return NULL;
     }
     metac_num_t j = 0;
@@ -116,6 +118,9 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
     }
 
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_val);
+    if (p_iter == NULL) {
+        return NULL;
+    }
 
     for (metac_value_t * p = (metac_value_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_value_t *)metac_recursive_iterator_next(p_iter)) {
@@ -238,7 +243,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                 continue;                        
                             }
                             /* try to process everything as array */
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val) != 0) {
+                                metac_value_delete(p_arr_val);
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                             metac_recursive_iterator_set_state(p_iter, 1);
                             continue;
                         }
@@ -326,8 +335,10 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                         metac_recursive_iterator_fail(p_iter);
                                         continue;
                                     }
-                                    if (ev.p_return_value != NULL) {
-                                        metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value);
+                                    if (ev.p_return_value != NULL &&
+                                        metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value) != 0) {
+                                        metac_value_delete(ev.p_return_value);
+                                        failure = 1;
                                     }
                                 }
                             }
@@ -339,7 +350,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                 failure = 1;
                                 break;
                             }
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val) != 0) {
+                                metac_value_delete(p_memb_val);
+                                failure = 1;
+                                break;
+                            }
                         }
                     }
                     if (failure != 0) {
@@ -486,19 +501,24 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                     }
 
                     // special case - char * with printable symbols and 0 as the last symbol
-                    char * printable_string = _dprintable_string(p_local);
-                    if (printable_string != NULL) {
-                        char * out = dsprintf("\"%s\"", printable_string);
-                        free(printable_string);
-                        if (out != NULL) {
-                            // cleanup
-                            if (p_non_flexible != NULL) {
-                                metac_value_delete(p_non_flexible);
-                                p_local = p;
-                            }
-                            metac_recursive_iterator_done(p_iter, out);
+                    char * printable_string = _dprintable_string(p_local, &failure);
+                    if (printable_string != NULL || failure != 0) {
+                        char * out = NULL;
+                        if (printable_string != NULL) {
+                            out = dsprintf("\"%s\"", printable_string);
+                            free(printable_string);
+                        }
+                        // cleanup
+                        if (p_non_flexible != NULL) {
+                            metac_value_delete(p_non_flexible);
+                            p_local = p;
+                        }
+                        if (out == NULL) {
+                            metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
+                        metac_recursive_iterator_done(p_iter, out);
+                        continue;
                     }
 
                     metac_num_t mcount = metac_value_element_count(p_local);
@@ -508,7 +528,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val) != 0) {
+                            metac_value_delete(p_el_val);
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (p_non_flexible != NULL) {
                         metac_value_delete(p_non_flexible);
@@ -605,7 +629,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val) != 0) {
+                            metac_value_delete(p_param_val);
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (failure != 0) {
                         metac_recursive_iterator_set_state(p_iter, 2);  /* failure cleanup */
@@ -633,7 +661,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_cdecl = metac_entry_cdecl(metac_value_entry(p_param_val));
                             metac_value_delete(p_param_val);
                             if (param_cdecl == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
@@ -641,7 +669,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_type = dsprintf(param_cdecl, "");
                             free(param_cdecl);
                             if (param_type == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
-- 
2.43.0


From 1e3a5e81ced43933d3424cbc1eb5a6afd5962dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:41 +0000
Subject: [PATCH 07/52] fix: value_string: print calls without variable
 arguments

A call with no argument in place of ... had no text at all and an empty
va_list was printed as VA_LIST((null)).
---
 src/value_string.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/value_string.c b/src/value_string.c
index a972dbc..53d838e 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -705,6 +705,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                         } else { // building part of fn call - append value
                             metac_value_delete(p_param_val);
 
+                            if (param_out[0] == 0) { // ... without any argument
+                                free(param_out);
+                                continue;
+                            }
+
                             char *prev_out = out;
                             out = dsprintf("%s%s%s",
                                 prev_out == NULL?"":prev_out, /*must include , at the end */
@@ -731,6 +736,13 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                     }
 
                     if (final_kind == METAC_KND_func_parameter) {
+                        if (out == NULL) { // no arguments
+                            out = dsprintf("");
+                            if (out == NULL) {
+                                metac_recursive_iterator_set_state(p_iter, 2); // failure cleanup
+                                continue;
+                            }
+                        }
                         if (metac_entry_is_va_list_parameter(metac_value_entry(p))!=0) { // wrap with VA_LIST()
                             char *prev_out = out;
                             out = dsprintf("VA_LIST(%s)",prev_out);
-- 
2.43.0


From 725d964a7d517cce4ba1df45902f539612e39b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:40 +0000
Subject: [PATCH 08/52] fix: entry_cdecl: fail cleanly when memory runs out

Ignored append failures lost types from the declaration, a member whose name
couldn't be built was printed nameless, partial results were released twice
and pending dependencies hit the iterator's assertion.
---
 src/entry_cdecl.c | 116 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 84 insertions(+), 32 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 49547cc..0178ce0 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -19,6 +19,9 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
         return NULL;
     }
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_entry);
+    if (p_iter == NULL) {
+        return NULL;
+    }
 
     for (metac_entry_t * p = (metac_entry_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_entry_t *)metac_recursive_iterator_next(p_iter)) {
@@ -27,8 +30,10 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
             case METAC_KND_variable: {
                 switch (state) {
                     case METAC_R_ITER_start: {
-                        if (p->variable_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->variable_info.type);// ask to process type on the next level
+                        if (p->variable_info.type != NULL &&
+                            metac_recursive_iterator_create_and_append_dep(p_iter, p->variable_info.type) != 0) { // ask to process type on the next level
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
                         }
                         metac_recursive_iterator_set_state(p_iter, 1);
                          continue;
@@ -62,6 +67,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 char * res = dsprintf("%s %%s",p->name);
                 if (res == NULL) {
                     metac_recursive_iterator_fail(p_iter);
+                    continue;
                 }
                 metac_recursive_iterator_done(p_iter, res);
                 continue;
@@ -112,8 +118,10 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
             case METAC_KND_array_type: {
                 switch (state) {
                     case METAC_R_ITER_start: {
-                        if (p->array_type_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->array_type_info.type);
+                        if (p->array_type_info.type != NULL &&
+                            metac_recursive_iterator_create_and_append_dep(p_iter, p->array_type_info.type) != 0) {
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
                         }
                         metac_recursive_iterator_set_state(p_iter, 1);
                         continue;
@@ -155,8 +163,10 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
             case METAC_KND_packed_type: {
                 switch (state) {
                     case METAC_R_ITER_start: {
-                        if (p->qual_type_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->qual_type_info.type);
+                        if (p->qual_type_info.type != NULL &&
+                            metac_recursive_iterator_create_and_append_dep(p_iter, p->qual_type_info.type) != 0) {
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
                         }
                         metac_recursive_iterator_set_state(p_iter, 1);
                         continue;
@@ -210,8 +220,10 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
             case METAC_KND_pointer_type: {
                 switch (state) {
                      case METAC_R_ITER_start: {
-                        if (p->pointer_type_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->pointer_type_info.type);
+                        if (p->pointer_type_info.type != NULL &&
+                            metac_recursive_iterator_create_and_append_dep(p_iter, p->pointer_type_info.type) != 0) {
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
                         }
                         metac_recursive_iterator_set_state(p_iter, 1);
                         continue;
@@ -263,12 +275,15 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             continue;
                         }
                         // otherwise we have anonimous data type and we'll need to identify it by declaration
+                        metac_flag_t failure = 0;
                         for (int i = 0; i < p->structure_type_info.members_count; ++i) {
-                            if (p->structure_type_info.members[i].member_info.type != NULL) {
-                                metac_recursive_iterator_create_and_append_dep(p_iter, p->structure_type_info.members[i].member_info.type);
+                            if (p->structure_type_info.members[i].member_info.type != NULL &&
+                                metac_recursive_iterator_create_and_append_dep(p_iter, p->structure_type_info.members[i].member_info.type) != 0) {
+                                failure = 1;
+                                break;
                             }
                         }
-                        metac_recursive_iterator_set_state(p_iter, 1);
+                        metac_recursive_iterator_set_state(p_iter, (failure == 0)?1:2);
                         continue;
                     }
                     case 1: {
@@ -295,6 +310,13 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                     name = dsprintf("%s",
                                         p->structure_type_info.members[i].name);        
                                 }
+                                if (name == NULL) {
+                                    if (type_pattern != NULL) {
+                                        free(type_pattern);
+                                    }
+                                    failure = 1;
+                                    break;
+                                }
                             }
                             // build field out of returned pattern and field name (can be absent)
                             char *field = trim_trailing_spaces(dsprintf((
@@ -318,11 +340,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (res != NULL) {
                                 free(res);
                             }
-                            if (new_res == NULL) {
+                            res = new_res;
+                            if (res == NULL) {
                                 failure = 1;
                                 break;
                             }
-                            res = new_res;
                         }
                         if (failure != 0) {
                             if (res != NULL) {
@@ -362,18 +384,23 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
             case METAC_KND_subprogram: {
                 switch (state) {
                     case METAC_R_ITER_start: {
-                        if (p->subprogram_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.type);// ask to process type on the next level
+                        metac_flag_t failure = 0;
+                        if (p->subprogram_info.type != NULL &&
+                            metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.type) != 0) {// ask to process type on the next level
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
                         }
                         for (int i = 0; i < p->subprogram_info.parameters_count; ++i) {
                             if (p->subprogram_info.parameters[i].kind == METAC_KND_func_parameter) {
                                 if (p->subprogram_info.parameters[i].func_parameter_info.unspecified_parameters == 0 &&
-                                    p->subprogram_info.parameters[i].func_parameter_info.type != NULL) {
-                                    metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.parameters[i].func_parameter_info.type);
+                                    p->subprogram_info.parameters[i].func_parameter_info.type != NULL &&
+                                    metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.parameters[i].func_parameter_info.type) != 0) {
+                                    failure = 1;
+                                    break;
                                 }
                             }
                         }
-                        metac_recursive_iterator_set_state(p_iter, 1);
+                        metac_recursive_iterator_set_state(p_iter, (failure == 0)?1:2);
                         continue;
                     }
                     case 1: {
@@ -382,7 +409,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         if (p->subprogram_info.type != NULL) {
                             type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
                             if (type_pattern == NULL) {
-                                metac_recursive_iterator_fail(p_iter);
+                                metac_recursive_iterator_set_state(p_iter, 2);
                                 continue;
                             }
                         }
@@ -420,11 +447,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                 if (param != NULL) {
                                     free(param);
                                 }
-                                if (new_params == NULL) {
+                                params = new_params;
+                                if (params == NULL) {
                                     failure = 1;
                                     break;
                                 }
-                                params = new_params;
                             }
                         }
                         if (failure != 0){
@@ -434,7 +461,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
                         // append type_pattern with (%s)
@@ -468,25 +495,40 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         metac_recursive_iterator_done(p_iter, res);
                         continue;
                     }
+                    case 2: { // fail-cleanup
+                        while(!metac_recursive_iterator_dep_queue_is_empty(p_iter)) {
+                            char * type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
+                            if (type_pattern != NULL){
+                                free(type_pattern);
+                            }
+                        }
+                        metac_recursive_iterator_fail(p_iter);
+                        continue;
+                    }
                 }
             }
             break;
             case METAC_KND_subroutine_type:{
                 switch (state) {
                     case METAC_R_ITER_start: {
-                        if (p->subroutine_type_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.type);// ask to process type on the next level
+                        metac_flag_t failure = 0;
+                        if (p->subroutine_type_info.type != NULL &&
+                            metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.type) != 0) {// ask to process type on the next level
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
                         }
                         for (int i = 0; i < p->subroutine_type_info.parameters_count; ++i) {
                             if (p->subprogram_info.parameters[i].kind == METAC_KND_func_parameter) {
                                 if (p->subroutine_type_info.parameters[i].func_parameter_info.unspecified_parameters == 0 &&
-                                    p->subroutine_type_info.parameters[i].func_parameter_info.type != NULL) {
-                                    metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.parameters[i].func_parameter_info.type);
+                                    p->subroutine_type_info.parameters[i].func_parameter_info.type != NULL &&
+                                    metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.parameters[i].func_parameter_info.type) != 0) {
+                                    failure = 1;
+                                    break;
                                 }
                             }
                         }
-                        metac_recursive_iterator_set_state(p_iter, 1);
-                         continue;
+                        metac_recursive_iterator_set_state(p_iter, (failure == 0)?1:2);
+                        continue;
                     }
                     case 1: {
                         metac_flag_t failure = 0;
@@ -494,7 +536,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         if (p->subroutine_type_info.type != NULL) {
                             type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
                             if (type_pattern == NULL) {
-                                metac_recursive_iterator_fail(p_iter);
+                                metac_recursive_iterator_set_state(p_iter, 2);
                                 continue;
                             }
                         }
@@ -531,11 +573,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (param != NULL) {
                                 free(param);
                             }
-                            if (new_params == NULL) {
+                            params = new_params;
+                            if (params == NULL) {
                                 failure = 1;
                                 break;
                             }
-                            params = new_params;
                         }
                         if (failure != 0) {
                             if (params != NULL) {
@@ -544,7 +586,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
                         // append type_pattern with (%s)
@@ -576,6 +618,16 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         metac_recursive_iterator_done(p_iter, res);
                         continue;
                     }
+                    case 2: { // fail-cleanup
+                        while(!metac_recursive_iterator_dep_queue_is_empty(p_iter)) {
+                            char * type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
+                            if (type_pattern != NULL){
+                                free(type_pattern);
+                            }
+                        }
+                        metac_recursive_iterator_fail(p_iter);
+                        continue;
+                    }
                 }
             }break;
             default: {
-- 
2.43.0


From 76118ce56b96bccf294627f1e2395cbed0922314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:21 +0000
Subject: [PATCH 09/52] fix: entry_cdecl: declare pointers to arrays and
 pointers with several qualifiers

int (*p)[3] was declared as int * p[3], and the 2nd qualifier of a pointer
was attached to the type the pointer points to.
---
 src/entry_cdecl.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 0178ce0..daa8f97 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -9,6 +9,24 @@ dsprintf_render_with_buf(64)
 
 #include <assert.h>
 
+/* skip qualifiers only (typedefs have their own name in declarations) */
+static metac_entry_t * _skip_quals(metac_entry_t * p_entry) {
+    while (p_entry != NULL) {
+        switch (p_entry->kind) {
+            case METAC_KND_const_type:
+            case METAC_KND_volatile_type:
+            case METAC_KND_restrict_type:
+            case METAC_KND_mutable_type:
+            case METAC_KND_shared_type:
+            case METAC_KND_packed_type:
+                p_entry = p_entry->qual_type_info.type;
+                continue;
+        }
+        break;
+    }
+    return p_entry;
+}
+
 /**
  * convert metac_entry to the C-declaration like string.
  * if entry is type the result will container a placeholder %s
@@ -194,7 +212,8 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             continue;
                         }
                         char * res = NULL;
-                        if (p->qual_type_info.type != NULL && p->qual_type_info.type->kind == METAC_KND_pointer_type) {
+                        metac_entry_t * p_qualified = _skip_quals(p->qual_type_info.type);
+                        if (p_qualified != NULL && p_qualified->kind == METAC_KND_pointer_type) {
                             /* this is more universal way... maybe we will switch to that*/
                             /*printf("PTR: returned %s, qual_str %s\n", (type_pattern != NULL)?type_pattern:"void %%s", qual_str);*/
                             res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
@@ -237,8 +256,9 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                 continue;
                             }
                         }
+                        metac_entry_t * p_target = _skip_quals(p->pointer_type_info.type);
                         char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
-                            "* %s");
+                            (p_target != NULL && p_target->kind == METAC_KND_array_type)?"(* %s)":"* %s");
                         if (type_pattern != NULL) {
                             free(type_pattern);
                         }
-- 
2.43.0


From e1500ec4523ea11a8df14525d5d8b7b614bbf30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:53 +0000
Subject: [PATCH 10/52] fix: entry_cdecl: declare functions which return
 pointers to functions or arrays

The parameters were appended after the declaration of the result.
---
 src/entry_cdecl.c | 56 ++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index daa8f97..2152379 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -484,29 +484,26 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
-                        // append type_pattern with (%s)
-                        char * subprogram_pattern = dsprintf("%s(%s)",
-                            (type_pattern != NULL)?type_pattern:"void %s",
-                            "%s");
-                        if (type_pattern != NULL) {
-                            free(type_pattern);
+                        // the function with its parameters takes the place of the name in the pattern of its result
+                        char * subprogram = dsprintf("%s(%s)",
+                            p->name,
+                            (params!=NULL)?params:"");
+                        if (params != NULL) {
+                            free(params);
                         }
-                        if (subprogram_pattern == NULL) {
-                            if (params != NULL) {
-                                free(params);
+                        if (subprogram == NULL) {
+                            if (type_pattern != NULL) {
+                                free(type_pattern);
                             }
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
                         // put everything into pattern
-                        char * res = dsprintf(subprogram_pattern,
-                            p->name,
-                            (params!=NULL)?params:"");
-                        if (subprogram_pattern != NULL) {
-                            free(subprogram_pattern);
-                        }
-                        if (params != NULL) {
-                            free(params);
+                        char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
+                            subprogram);
+                        free(subprogram);
+                        if (type_pattern != NULL) {
+                            free(type_pattern);
                         }
                         if (res == NULL) {
                             metac_recursive_iterator_fail(p_iter);
@@ -609,27 +606,26 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
-                        // append type_pattern with (%s)
-                        char * subroutine_pattern = dsprintf("%s(%s)",
-                            (type_pattern != NULL)?type_pattern:"void %s",
-                            "%s");
-                        if (type_pattern != NULL) {
-                            free(type_pattern);
+                        // the function with its parameters takes the place of the name in the pattern of its result
+                        char * subroutine_pattern = dsprintf("(%s)(%s)",
+                            "%s",
+                            (params!=NULL)?params:"");
+                        if (params != NULL) {
+                            free(params);
                         }
                         if (subroutine_pattern == NULL) {
-                            if (params != NULL) {
-                                free(params);
+                            if (type_pattern != NULL) {
+                                free(type_pattern);
                             }
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
                         // now we can form final result
-                        char * res = dsprintf(subroutine_pattern,
-                            "(%s)",
-                            (params!=NULL)?params:"");
+                        char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
+                            subroutine_pattern);
                         free(subroutine_pattern);
-                        if (params != NULL) {
-                            free(params);
+                        if (type_pattern != NULL) {
+                            free(type_pattern);
                         }
                         if (res == NULL) {
                             metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From 59ce48c06498060a238426592cc82f172c6beb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:44 +0000
Subject: [PATCH 11/52] fix: entry_tag: hints fail when memory runs out

The hint handlers reported success without a value, so the operation used
1 element or skipped the union, or crashed when a sibling's value couldn't be
created.
---
 src/entry_tag.c | 23 ++++++++++++++++-------
 src/value.c     |  3 +++
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index abe4eec..c16ee1b 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -398,6 +398,9 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
         if (metac_value_has_members(p_parent_val) != 0) {
             for (metac_num_t i = 0; i < metac_value_member_count(p_parent_val); ++i) {
                 metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);
+                if (p_sibling_val == NULL) {
+                    return -(ENOMEM);
+                }
                 if (metac_value_name(p_sibling_val) == NULL ||
                     strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                     metac_value_delete(p_sibling_val);
@@ -410,11 +413,14 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                 }
                 metac_value_delete(p_sibling_val);
                 p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
-                return 0;
+                return (p_ev->p_return_value != NULL)?0:-(ENOMEM);
             }
         } else if (metac_value_has_parameter_load(p_parent_val) != 0) {
             for (metac_num_t i = 0; i < metac_value_parameter_count(p_parent_val); ++i) {
                 metac_value_t *p_sibling_val = metac_value_parameter_new_item(p_parent_val, i);
+                if (p_sibling_val == NULL) {
+                    return -(ENOMEM);
+                }
                 if (metac_value_name(p_sibling_val) == NULL ||
                     strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                     metac_value_delete(p_sibling_val);
@@ -427,7 +433,7 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                 }
                 metac_value_delete(p_sibling_val);
                 p_ev->p_return_value = metac_new_element_count_value(p_val, content_len);
-                return 0;
+                return (p_ev->p_return_value != NULL)?0:-(ENOMEM);
             }
         } else {
             return -(EFAULT);
@@ -462,7 +468,7 @@ int metac_handle_zero_ended_string(metac_value_walker_hierarchy_t *p_hierarchy,
         }
         metac_num_t content_len = strlen(ptr) + 1;
         p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
-        return 0;
+        return (p_ev->p_return_value != NULL)?0:-(ENOMEM);
     }    
     return 0;
 }
@@ -506,7 +512,7 @@ int metac_handle_container_of(metac_value_walker_hierarchy_t *p_hierarchy, metac
             }
             p_ev->p_return_value = metac_new_element_count_value(p_container_ptr_val, 1);
             metac_value_delete(p_container_ptr_val);
-            return 0;
+            return (p_ev->p_return_value != NULL)?0:-(ENOMEM);
         }
     }
     return 0;
@@ -601,6 +607,9 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
 
                 for (metac_num_t i = 0; i < metac_value_member_count(p_parent_val); ++i) {
                     metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);
+                    if (p_sibling_val == NULL) {
+                        return -(ENOMEM);
+                    }
                     if (metac_value_name(p_sibling_val) == NULL ||
                         strcmp(metac_value_name(p_sibling_val),p_cnxt->sibling_selector_fieldname) !=0 ) {
                         metac_value_delete(p_sibling_val);
@@ -635,7 +644,7 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
                         }
                     }
                     p_ev->p_return_value = metac_new_value_by_member_id(p_val, id);
-                    return 0;
+                    return (p_ev->p_return_value != NULL)?0:-(ENOENT);
                 }
             }
             break;
@@ -646,7 +655,7 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
                     return -(EINVAL);
                 }
                 p_ev->p_return_value = metac_new_value_by_member_id(p_val, p_cnxt->permanent_id);
-                return 0;
+                return (p_ev->p_return_value != NULL)?0:-(ENOENT);
             }
             break;
         }
@@ -779,7 +788,7 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                 }
                 p_ev->p_return_value = metac_new_element_count_value(p_cast_ptr_val, content_count);
                 metac_value_delete(p_cast_ptr_val);
-                return 0;
+                return (p_ev->p_return_value != NULL)?0:-(ENOMEM);
             }
         }
     }
diff --git a/src/value.c b/src/value.c
index 085d88e..a28dbac 100644
--- a/src/value.c
+++ b/src/value.c
@@ -824,6 +824,9 @@ metac_value_t * metac_new_value_from_value(metac_value_t * p_val) {
 }
 
 void metac_value_delete(metac_value_t * p_val) {
+    if (p_val == NULL) {
+        return;
+    }
     // cleanup entry if it's dynamic (init creates a copy of dynamic entries)
     if (metac_entry_is_dynamic(p_val->p_entry)!=0){
         metac_entry_delete(p_val->p_entry);
-- 
2.43.0


From 21984066a02a378ae4496baee93871098d93362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:58 +0000
Subject: [PATCH 12/52] fix: entry_tag: hints fail if a sibling is missing

instead of letting the operation guess 1 element or no union member. Negative
counts are refused as well.
---
 src/entry_tag.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index c16ee1b..8982e34 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -407,7 +407,7 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                     continue;
                 }
                 metac_num_t content_len = 0;
-                if (metac_value_num(p_sibling_val, &content_len) != 0) {
+                if (metac_value_num(p_sibling_val, &content_len) != 0 || content_len < 0) {
                     metac_value_delete(p_sibling_val);
                     return -(EFAULT);
                 }
@@ -427,7 +427,7 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                     continue;
                 }
                 metac_num_t content_len = 0;
-                if (metac_value_num(p_sibling_val, &content_len) != 0) {
+                if (metac_value_num(p_sibling_val, &content_len) != 0 || content_len < 0) {
                     metac_value_delete(p_sibling_val);
                     return -(EFAULT);
                 }
@@ -438,6 +438,7 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
         } else {
             return -(EFAULT);
         }
+        return -(ENOENT); /* no such sibling */
     }    
     return 0;
 }
@@ -646,6 +647,7 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
                     p_ev->p_return_value = metac_new_value_by_member_id(p_val, id);
                     return (p_ev->p_return_value != NULL)?0:-(ENOENT);
                 }
+                return -(ENOENT); /* no such sibling */
             }
             break;
             case unsConstant: {
@@ -768,9 +770,12 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
         metac_num_t content_count = 1;
         if (p_cnxt->sibling_count_fieldname != NULL && strcmp(p_cnxt->sibling_count_fieldname, "") != 0) {
             metac_num_t count_id = metac_entry_member_name_to_id(metac_value_entry(p_parent_val), p_cnxt->sibling_count_fieldname);
+            if (count_id < 0) {
+                return -(EINVAL);
+            }
 
             metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, count_id);
-            if (metac_value_num(p_sibling_val, &content_count) != 0) {
+            if (metac_value_num(p_sibling_val, &content_count) != 0 || content_count < 0) {
                 metac_value_delete(p_sibling_val);
                 return -(EINVAL);
             } 
-- 
2.43.0


From 4eb92e9cebdd704a1cb901c31d59854b50f89b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:12 +0000
Subject: [PATCH 13/52] fix: value: metac_value_num refuses numbers which don't
 fit

They were truncated, and an unlisted selector or a huge count looked like a
valid one.
---
 src/value_base_type.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/value_base_type.c b/src/value_base_type.c
index 7ece656..42f0c10 100644
--- a/src/value_base_type.c
+++ b/src/value_base_type.c
@@ -230,6 +230,9 @@ int metac_value_num(metac_value_t * p_val, metac_num_t * p_var) {
         if ( metac_value_is_##_pseudoname_(p_val) != 0) { \
             _type_ v; \
             if (metac_value_##_pseudoname_(p_val, &v) == 0) { \
+                if ((_type_)(metac_num_t)v != v) { \
+                    return -(ERANGE); \
+                } \
                 *p_var = (metac_num_t)v; \
                 return 0;\
             } \
@@ -251,6 +254,9 @@ int metac_value_num(metac_value_t * p_val, metac_num_t * p_var) {
     if (metac_value_is_enumeration(p_val) != 0) {
         metac_const_value_t v;
         if (metac_value_enumeration(p_val, &v) == 0) {
+            if ((metac_const_value_t)(metac_num_t)v != v) {
+                return -(ERANGE);
+            }
             *p_var = (metac_num_t)v;
             return 0;
         }
-- 
2.43.0


From c5635cd3f31e3163b849135da71a4261f3f46b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:27 +0000
Subject: [PATCH 14/52] fix: entry_tag: continue with the next level if a
 linked map has no tag

It hit an assertion.
---
 src/entry_tag.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 8982e34..c6e5ec2 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -180,6 +180,7 @@ metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map, metac_entry_t
             if (p_ext_res != NULL) {
                 return p_ext_res;
             }
+            continue;   /* external categories don't have their own map */
         }
         if (p_tag_map->p_categories[i].p_map == NULL) {
             assert(0);
-- 
2.43.0


From 8349ad379a8ba30c4d6f158255a8fb6d4511df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:42 +0000
Subject: [PATCH 15/52] fix: entry_tag: release the tag string when a tag can't
 be stored

---
 src/entry_tag.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index c6e5ec2..56c36e6 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -228,7 +228,10 @@ static int _tag_map_set_tag(metac_tag_map_t * p_tag_map,
     metac_entry_tag_t *p_prev_tag = NULL;
     
     if (hashmapPut(p_tag_map->p_categories[category].p_map, (void*)p_entry, (void*)p_local_tag, (void**)&p_prev_tag) != 0) {
-        free(p_local_tag);
+        if (p_local_tag->p_tagstring != NULL) {
+            free(p_local_tag->p_tagstring);
+        }
+        free(p_local_tag); // the context still belongs to the caller
         return -(EFAULT);
     }
 
-- 
2.43.0


From a109a94dd62b407a3cc3e556e8ad63851300d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:22 +0000
Subject: [PATCH 16/52] fix: entry: recognise qualified void pointers and
 pointers to qualified or renamed incomplete types

Only the direct target was checked, so const void * was processed as a
pointer to 1 element of an unknown type.
---
 src/entry.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/entry.c b/src/entry.c
index 362a2cb..a9e1006 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -298,14 +298,16 @@ metac_flag_t metac_entry_is_pointer(metac_entry_t *p_entry) {
 metac_flag_t metac_entry_is_void_pointer(metac_entry_t *p_entry) {
     _check_(p_entry == NULL, 0);
     metac_entry_t * p_final_entry = _entry_with_pointer_info(p_entry);
-    return p_final_entry != NULL && p_final_entry->pointer_type_info.type == NULL;
+    /* e.g. const void * has a target entry, but it leads to nothing */
+    return p_final_entry != NULL && metac_entry_final_entry(p_final_entry->pointer_type_info.type, NULL) == NULL;
 }
 
 metac_flag_t metac_entry_is_declaration_pointer(metac_entry_t *p_entry) {
     _check_(p_entry == NULL, 0);
     metac_entry_t * p_final_entry = _entry_with_pointer_info(p_entry);
     if (p_final_entry != NULL && p_final_entry->pointer_type_info.type != NULL) {
-        return p_final_entry->pointer_type_info.type->declaration != 0;
+        metac_entry_t * p_target_entry = metac_entry_final_entry(p_final_entry->pointer_type_info.type, NULL);
+        return p_target_entry != NULL && p_target_entry->declaration != 0;
     }
     return 0;
 }
-- 
2.43.0


From d7f63f3b613e3d3aebad24391e5cd23548384bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:36 +0000
Subject: [PATCH 17/52] fix: value_string: print pointers to incomplete types
 as void pointers

They were printed as an array of 1 empty structure.
---
 src/value_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index 53d838e..f8e20fd 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -220,8 +220,8 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                     }
                                 }
                             }
-                            if (p_arr_val == NULL && metac_value_is_void_pointer(p)) {
-                                /* if p is void * we won't be able to do anything - there are no arrays of void. fallback to shallow */
+                            if (p_arr_val == NULL && (metac_value_is_void_pointer(p) != 0 || metac_value_is_declaration_pointer(p) != 0)) {
+                                /* if p is void * (or the target type is incomplete) we won't be able to do anything - there are no arrays of void. fallback to shallow */
                                 char * out = metac_value_pointer_string(p);
                                 if (out == NULL) {
                                     metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From 2accfb8068773234005f93b7a3137fd8ab68aaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:32 +0000
Subject: [PATCH 18/52] fix: value_deep: delete memory entries without
 allocating memory

---
 src/value_deep.c | 51 +++++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 35 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 1e44f49..cd59937 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -170,45 +170,26 @@ struct metac_memory_entry * metac_new_memory_entry(metac_value_t * p_val, metac_
     return p_memory_entry;
 }
 
+/* doesn't need extra memory, because it's used to clean up after allocation failures as well */
 void metac_memory_entry_delete(struct metac_memory_entry * p_memory_entry) {
-    if (p_memory_entry == NULL) {
-        return;
-    }
-    metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_memory_entry);
-    for (struct metac_memory_entry * p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter); p != NULL;
-        p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter)) {
-        int state = metac_recursive_iterator_get_state(p_iter);
-        switch (state) {
-            case METAC_R_ITER_start: {
-                if (p->p_val != NULL) {
-                    metac_value_delete(p->p_val);
-                }
-                if (p->children_count == 0) {
-                    assert(p->pp_children == NULL);
-                    free(p);
-                    metac_recursive_iterator_done(p_iter, NULL);
-                    continue;
-                }
-                for (metac_num_t i = 0; i < p->children_count; ++i) {
-                    if (p->pp_children[i] != NULL) {
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
-                    }
-                }
-                metac_recursive_iterator_set_state(p_iter, 1);
-                continue;
-            }
-            case 1: {
-                while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
-                    metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
-                }
-                free(p->pp_children);
-                free(p);
-                metac_recursive_iterator_done(p_iter, NULL);
-                continue;
+    struct metac_memory_entry * p = p_memory_entry;
+    while (p != NULL) {
+        if (p->children_count > 0) { /* children first */
+            struct metac_memory_entry * p_child = p->pp_children[--p->children_count];
+            if (p_child != NULL) {
+                p_child->p_parent = p;
+                p = p_child;
             }
+            continue;
+        }
+        struct metac_memory_entry * p_next = (p != p_memory_entry)?p->p_parent:NULL;
+        if (p->p_val != NULL) {
+            metac_value_delete(p->p_val);
         }
+        free(p->pp_children);
+        free(p);
+        p = p_next;
     }
-    metac_recursive_iterator_free(p_iter);
 }
 
 static int addr_ptr_key_hash(void* key) {
-- 
2.43.0


From ae59ed4c049eaf7fe3fc4bfa91704be2f1b52cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:04 +0000
Subject: [PATCH 19/52] fix: value_deep: building of a memory map fails cleanly
 when memory runs out

---
 src/value_deep.c | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index cd59937..03bc637 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -295,6 +295,15 @@ static int _identify_allocatable_entries(struct metac_memory_map * p_map) {
     return 0;
 }
 
+/* appends p_val as a dependency. in case of failure p_val is deleted */
+static int _append_value_dep(metac_recursive_iterator_t * p_iter, metac_value_t * p_val) {
+    int res = metac_recursive_iterator_create_and_append_dep(p_iter, p_val);
+    if (res != 0) {
+        metac_value_delete(p_val);
+    }
+    return res;
+}
+
 /* default mode - failsafe */
 static metac_value_memory_map_mode_t const _default_value_memory_map_mode = {
     .memory_block_mode = METAC_MMODE_dag,
@@ -317,12 +326,14 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
 
     struct metac_memory_map *p_map = calloc(1, sizeof(*p_map));
     if (p_map == NULL) {
+        metac_value_delete(p_val);
         return NULL;
     }
     if (p_map_mode->memory_block_mode == METAC_MMODE_dag) {
         p_map->p_addr_ptr_val_to_memory_entry = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
         if (p_map->p_addr_ptr_val_to_memory_entry == NULL) {
             free(p_map);
+            metac_value_delete(p_val);
             return NULL;
         }
     }
@@ -384,7 +395,10 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                             continue;
                                         }
                                         if (ev.p_return_value != NULL) {
-                                            metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value);
+                                            if (_append_value_dep(p_iter, ev.p_return_value) != 0) {
+                                                metac_recursive_iterator_fail(p_iter);
+                                                continue;
+                                            }
                                             children_count = 1;
                                         }
                                     }
@@ -401,7 +415,10 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                     failure = 1;
                                     break;
                                 }
-                                metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val);
+                                if (_append_value_dep(p_iter, p_memb_val) != 0) {
+                                    failure = 1;
+                                    break;
+                                }
                                 ++children_count;
                             }
                         }
@@ -457,7 +474,10 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 failure = 1;
                                 break;
                             }
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val);
+                            if (_append_value_dep(p_iter, p_el_val) != 0) {
+                                failure = 1;
+                                break;
+                            }
                             ++children_count;
                         }
 
@@ -663,12 +683,19 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                         continue;                        
                     }
                     /* finally we have p_arr_val which will be the child */
-                    metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val);
                     struct metac_memory_entry * p_memory_entry = metac_new_memory_entry(p, sz, 1);
                     if (p_memory_entry == NULL) {
+                        metac_value_delete(p_arr_val);
                         metac_recursive_iterator_fail(p_iter);
                         continue;                 
                     }
+                    if (_append_value_dep(p_iter, p_arr_val) != 0) {
+                        // p_in stil must exist if we fail
+                        p_memory_entry->p_val = NULL;
+                        metac_memory_entry_delete(p_memory_entry);
+                        metac_recursive_iterator_fail(p_iter);
+                        continue;
+                    }
 
                     metac_recursive_iterator_set_context(p_iter, p_memory_entry);
                     metac_recursive_iterator_set_state(p_iter, 1);
@@ -754,7 +781,10 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val);
+                        if (_append_value_dep(p_iter, p_param_val) != 0) {
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (failure != 0) {
                         metac_recursive_iterator_set_state(p_iter, 2);  /* failure cleanup */
-- 
2.43.0


From 09870f6079c404febae02934517c642e9930e150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:33 +0000
Subject: [PATCH 20/52] fix: value_deep: several pointers to the same part of a
 block and partly overlapping ones

---
 src/value_deep.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 03bc637..bab90f7 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -268,7 +268,10 @@ static int _identify_allocatable_entries(struct metac_memory_map * p_map) {
         assert(p_current_entry != NULL);
 
         if (p_current_entry->byte_size <= 0) {
-            // artificial elements, like param/function loads
+            // artificial elements, like param/function loads or empty arrays
+            if (p_main != NULL && p_current < p_main + p_main_entry->byte_size) {
+                p_current_entry->offset_from_allocate_base = p_current - p_main;
+            }
             continue;
         }
 
@@ -283,11 +286,8 @@ static int _identify_allocatable_entries(struct metac_memory_map * p_map) {
             continue;
         }
         if (p_main + p_main_entry->byte_size < p_current + p_current_entry->byte_size) {
-            metac_size_t delta = p_current + p_current_entry->byte_size - (p_main + p_main_entry->byte_size);
-            printf("WARNING: partial overlap %p:%"METAC_SIZE_PRIx" with %p:%"METAC_SIZE_PRIx
-                ". should we extend the first size by %"METAC_SIZE_PRIx"\n",
-                p_main, p_main_entry->byte_size, p_current, p_current_entry->byte_size, 
-                delta);
+            /* partial overlap - both are parts of the same block, it has to have space for both of them */
+            p_main_entry->byte_size = p_current + p_current_entry->byte_size - p_main;
         }
         p_current_entry->offset_from_allocate_base = p_current - p_main;
     }
@@ -1086,6 +1086,7 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                     if (p->children_count == 1) {
                         size_t nmemb;
                         void * src;
+                        struct metac_memory_entry * p_src_entry;
                         switch (p_mode->memory_block_mode) {
                             case METAC_MMODE_tree:
                                 nmemb = 1;
@@ -1108,14 +1109,17 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                 src = metac_value_addr(p->pp_children[0]->p_val);
                                 assert(src != NULL); /* since children count >0 this must be true */
                                 assert(context.src_to_dst != NULL);
-                                if (p->pp_children[0]->offset_from_allocate_base != 0) {
-                                    void * allocate_src = src - p->pp_children[0]->offset_from_allocate_base;
+                                /* there may be several entries with this address, only the one from the map knows the offset */
+                                p_src_entry = (struct metac_memory_entry *)hashmapGet(context.p_map->p_addr_ptr_val_to_memory_entry, src);
+                                assert(p_src_entry != NULL);
+                                if (p_src_entry->offset_from_allocate_base != 0) {
+                                    void * allocate_src = src - p_src_entry->offset_from_allocate_base;
                                     void * allocate_dst = hashmapGet(context.src_to_dst, allocate_src);
                                     if (allocate_dst == NULL) {
                                         metac_recursive_iterator_fail(p_iter);
                                         continue;
                                     }
-                                    p_dst_children_addr_override = allocate_dst + p->pp_children[0]->offset_from_allocate_base;
+                                    p_dst_children_addr_override = allocate_dst + p_src_entry->offset_from_allocate_base;
                                 } else {
                                     p_dst_children_addr_override = hashmapGet(context.src_to_dst, src);
                                     if (p_dst_children_addr_override == NULL) {
-- 
2.43.0


From 1f7bd243db46c40bf899cec859e6f6d91d799741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:06 +0000
Subject: [PATCH 21/52] fix: value_deep: copy writes NULL pointers to the
 destination in all modes

---
 src/value_deep.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index bab90f7..09533d1 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -940,6 +940,11 @@ metac_flag_t metac_value_free_ex(metac_value_t * p_val,
     return 1;
 }
 
+static bool _value_is_null_pointer(metac_value_t * p_val) {
+    void * p_addr = NULL;
+    return metac_value_pointer(p_val, &p_addr) == 0 && p_addr == NULL;
+}
+
 struct _metac_value_copy_context {
     void *(*calloc_fn)(size_t nmemb, size_t size);
     void (*free_fn)(void *ptr);
@@ -1160,7 +1165,8 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_ignore){  /* set as NULL. */
+                    } else if (_value_is_null_pointer(p->p_val) || 
+                        p_mode->unknown_ptr_mode == METAC_UPTR_ignore){  /* set as NULL. */
                         if (metac_value_set_pointer(p_dst_val, NULL)!=0) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
-- 
2.43.0


From d0266d5ae8ed68f455e9d0069eed6379280cb44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:19 +0000
Subject: [PATCH 22/52] fix: value_deep: failed copy gives all blocks back via
 free_fn

---
 src/value_deep.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 09533d1..d58636a 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -970,7 +970,9 @@ static bool _value_copy_preallocate(void* key, void* value, void* context) {
             return false;
         }
         if (hashmapPut(p_context->src_to_dst, key, dst, NULL) != 0) {
-            free(dst);
+            if (p_context->free_fn != NULL) {
+                p_context->free_fn(dst);
+            }
             p_context->preallocation_failed = 1;
             return false;
         }
@@ -1058,13 +1060,15 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         return NULL;
     }
 
+    /* tracks all allocated blocks. in tree mode there is no correspondence with source blocks: dst is used as key */
+    context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
+    if (context.src_to_dst == NULL) {
+        metac_value_memory_map_delete(context.p_map);
+        return NULL;
+    }
+
     if (p_mode->memory_block_mode != METAC_MMODE_tree) {
         /* preparations are needed for that mode - we need to allocate memory for all allocatable blocks */
-        context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
-        if (context.src_to_dst == NULL) {
-            metac_value_memory_map_delete(context.p_map);
-            return NULL;   
-        }
         hashmapForEach(context.p_map->p_addr_ptr_val_to_memory_entry, _value_copy_preallocate, &context);
 
         if (context.preallocation_failed != 0) {
@@ -1107,6 +1111,11 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                     metac_recursive_iterator_fail(p_iter);
                                     continue;
                                 }
+                                if (hashmapPut(context.src_to_dst, p_dst_children_addr_override, p_dst_children_addr_override, NULL) != 0) {
+                                    free_fn(p_dst_children_addr_override);
+                                    metac_recursive_iterator_fail(p_iter);
+                                    continue;
+                                }
                                 break;
                             case METAC_MMODE_dag:
                             default:
@@ -1247,13 +1256,6 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                         gfail = 1;
                     }
                     if (p_children != NULL && p_children->private_data != NULL) {
-                        if (fail != 0 && metac_value_is_pointer(p->p_val) && p_mode->memory_block_mode == METAC_MMODE_tree) {
-                            /*need to free memory in that case */
-                            assert(p->children_count == 1);
-                            void * p_dst_children_addr_override = metac_value_addr((metac_value_t*)p_children->private_data);
-                            assert(p_dst_children_addr_override != NULL);
-                            free (p_dst_children_addr_override);
-                        }
                         metac_value_delete((metac_value_t*)p_children->private_data);
                         p_children->private_data = NULL;
                     }
-- 
2.43.0


From 05541fb5e823a6ad24cc9689dc2f4afadd12309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:11 +0000
Subject: [PATCH 23/52] fix: value_deep: copy fails cleanly when memory runs
 out

---
 src/value_deep.c | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index d58636a..5b3d4f0 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -995,6 +995,20 @@ static bool _value_copy_free(void* key, void* value, void* context) {
     return true;
 }
 
+/* appends p_memory_entry as a dependency with p_dst_val as its destination. p_dst_val is deleted if it wasn't appended */
+static int _append_copy_dep(metac_recursive_iterator_t * p_iter, struct metac_memory_entry * p_memory_entry, metac_value_t * p_dst_val) {
+    if (p_dst_val == NULL) {
+        return -(ENOMEM);
+    }
+    int res = metac_recursive_iterator_create_and_append_dep(p_iter, p_memory_entry);
+    if (res != 0) {
+        metac_value_delete(p_dst_val);
+        return res;
+    }
+    p_memory_entry->private_data = p_dst_val;
+    return 0;
+}
+
 /* copy src to dst (with rewriting data), be careful, dst must have enough space.
 don't use flexibe array. instead make val as a ptr to that flexible array so 
 the function will create a pointer and create a deep copy for everything it points to.
@@ -1089,6 +1103,7 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         int state = metac_recursive_iterator_get_state(p_iter);
         switch (state) {
             case METAC_R_ITER_start: {
+                int failure = 0;
                 void * p_dst_children_addr_override = NULL;
                 if (metac_value_is_pointer(p->p_val)) {
                     assert(p->children_count <= 1);
@@ -1218,36 +1233,36 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                         continue;
                     }
                     if (metac_parameter_storage_copy(p_param_storage, p_dst_param_storage) !=0) {
+                        metac_parameter_storage_cleanup(p_dst_param_storage);
                         metac_recursive_iterator_fail(p_iter);
                         continue;   
                     }
 
-                    for (metac_num_t i = 0; i < p->children_count; ++i) {
+                    for (metac_num_t i = 0; i < p->children_count && failure == 0; ++i) {
                         if (p->pp_children[i] != NULL) {
-                            p->pp_children[i]->private_data = metac_parameter_storage_new_param_value(p_dst_param_storage, i);
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
+                            failure = _append_copy_dep(p_iter, p->pp_children[i], metac_parameter_storage_new_param_value(p_dst_param_storage, i));
                         }
                     }
-                    metac_recursive_iterator_set_state(p_iter, 1);
+                    metac_recursive_iterator_set_state(p_iter, failure == 0?1:2);
                     continue;
                 }
                 /* complex types will be covered here: */
-                for (metac_num_t i = 0; i < p->children_count; ++i) {
+                for (metac_num_t i = 0; i < p->children_count && failure == 0; ++i) {
                     if (p->pp_children[i] != NULL) {
-                        if (p->children_count == 1 && p_dst_children_addr_override != NULL) {
-                            p->pp_children[i]->private_data = metac_new_value(metac_value_entry(p->pp_children[i]->p_val), p_dst_children_addr_override);
-                        } else {
+                        void * p_dst_child_addr = p_dst_children_addr_override;
+                        if (p->children_count != 1 || p_dst_children_addr_override == NULL) {
                             metac_size_t delta = metac_value_addr(p->pp_children[i]->p_val) - metac_value_addr(p->p_val);
-                            p->pp_children[i]->private_data = metac_new_value(metac_value_entry(p->pp_children[i]->p_val), metac_value_addr(p_dst_val) + delta);
+                            p_dst_child_addr = metac_value_addr(p_dst_val) + delta;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
+                        failure = _append_copy_dep(p_iter, p->pp_children[i], metac_new_value(metac_value_entry(p->pp_children[i]->p_val), p_dst_child_addr));
                     }
                 }
-                metac_recursive_iterator_set_state(p_iter, 1);
+                metac_recursive_iterator_set_state(p_iter, failure == 0?1:2);
                 continue;
             }
-            case 1: {
-                int gfail = 0;
+            case 1:
+            case 2: /* failure cleanup */ {
+                int gfail = (state == 2);
                 while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                     int fail = 0;
                     struct metac_memory_entry *p_children = NULL;
@@ -1261,6 +1276,9 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                     }
                 }
                 if (gfail != 0) {
+                    if (metac_value_has_parameter_load(p->p_val)) { /* it was empty before */
+                        metac_parameter_storage_cleanup((metac_parameter_storage_t *)metac_value_addr(p_dst_val));
+                    }
                     metac_recursive_iterator_fail(p_iter);
                     continue; 
                 }
@@ -1269,7 +1287,7 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
             }
         }
     }
-    int fail = 0;
+    int fail = (p_iter == NULL);
     metac_recursive_iterator_get_out(p_iter, NULL, &fail);
     metac_recursive_iterator_free(p_iter);
 
-- 
2.43.0


From 8ef26d20414f270206ff39d2f76449611343f4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:24 +0000
Subject: [PATCH 24/52] fix: value_deep: compare loops by structure if unknown
 pointers are treated as values

---
 src/value_deep.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 5b3d4f0..66c4de5 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1355,7 +1355,8 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
 
                 if (metac_value_is_pointer(p1->p_val) != 0 && metac_value_is_pointer(p2->p_val) != 0) {
                     if (p1->children_count == 0 && p2->children_count == 0) {
-                        if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) {
+                        /* pointers which make the same loop (loop_level was compared above) have different values in different objects */
+                        if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values && p1->loop_level == 0) {
                             /*treat pointer as value*/
                             int _cmp = metac_value_equal_pointer(p1->p_val, p2->p_val);
                             if (_cmp < 0) {
-- 
2.43.0


From 087aa9e9cc7a72c5725ddbf76dc6f58764ff0bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:36 +0000
Subject: [PATCH 25/52] fix: value_deep: comparison fails when memory runs out
 instead of giving a wrong answer

---
 src/value_deep.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 66c4de5..84bfc64 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1406,20 +1406,22 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
                     }
                 }
                 /* complex types will be covered here: */
-                for (metac_num_t i = 0; i < p1->children_count; ++i) {
+                int failure = 0;
+                for (metac_num_t i = 0; i < p1->children_count && failure == 0; ++i) {
                     assert(p1->pp_children[i] != NULL && p2->pp_children[i] != NULL);
                     if (p1->pp_children[i] != NULL && p2->pp_children[i] != NULL) {
                         p1->pp_children[i]->private_data = p2->pp_children[i];
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p1->pp_children[i]);
+                        failure = metac_recursive_iterator_create_and_append_dep(p_iter, p1->pp_children[i]);
                     }
                 }
-                metac_recursive_iterator_set_state(p_iter, 1);
+                metac_recursive_iterator_set_state(p_iter, failure == 0?1:2);
                 continue;
 
             }
             case 1:
+            case 2: /* failure cleanup */
             default: {
-                int gfail = 0;
+                int gfail = (state == 2);
                 while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                     int fail = 0;
                     struct metac_memory_entry *p1_children = NULL;
@@ -1442,7 +1444,7 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
 
         }
     }
-    int fail = 0;
+    int fail = (p_iter == NULL);
     metac_recursive_iterator_get_out(p_iter, NULL, &fail);
     metac_recursive_iterator_free(p_iter);
 
-- 
2.43.0


From 6a3e42f84b202aba821e82e64c749892f84a6d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:15 +0000
Subject: [PATCH 26/52] fix: value_deep: don't use deleted entries when
 building of a memory map fails

---
 src/value_deep.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 84bfc64..74a742b 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -338,6 +338,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
         }
     }
 
+    metac_flag_t failed = 0; /* set when some entries are already deleted, hashmap can have references to them since then */
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_val);
     for (metac_value_t * p = (metac_value_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_value_t *)metac_recursive_iterator_next(p_iter)) {
@@ -544,6 +545,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                 case 2: 
                 default: {
                     /* failure cleanup*/
+                    failed = 1;
                     while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                         metac_value_t * p_memb_val = NULL;
                         struct metac_memory_entry * p_member_memory_entry = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, (void**)&p_memb_val, NULL);
@@ -726,7 +728,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                     p_memory_entry->pp_children[0] = p_member_memory_entry;
                     p_member_memory_entry->p_parent = p_memory_entry;
                     /* if in DAG mode - keep also info about new entries where pointers point in hashmap*/
-                    if (p_map->p_addr_ptr_val_to_memory_entry != NULL) {
+                    if (p_map->p_addr_ptr_val_to_memory_entry != NULL && failed == 0) {
                         void * addr = metac_value_addr(p_member_memory_entry->p_val);
 
                         if (hashmapContainsKey(p_map->p_addr_ptr_val_to_memory_entry, addr) != 0) {
@@ -735,6 +737,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 (struct metac_memory_entry *)hashmapGet(p_map->p_addr_ptr_val_to_memory_entry, addr);
                             if (p_member_memory_entry->byte_size > p_prev_member_memory_entry->byte_size) {
                                 if (hashmapPut(p_map->p_addr_ptr_val_to_memory_entry, addr, (void*)p_member_memory_entry, NULL)!=0) {
+                                    failed = 1;
                                     // p_in stil must exist if we fail
                                     if (p_memory_entry->p_val == p) {
                                         p_memory_entry->p_val = NULL;
@@ -746,6 +749,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                             }
                         } else {
                             if (hashmapPut(p_map->p_addr_ptr_val_to_memory_entry, addr, (void*)p_member_memory_entry, NULL)!=0) {
+                                failed = 1;
                                 // p_in stil must exist if we fail
                                 if (p_memory_entry->p_val == p) {
                                     p_memory_entry->p_val = NULL;
@@ -834,6 +838,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                 case 2: 
                 default: {
                     /* failure cleanup*/
+                    failed = 1;
                     while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                         metac_value_t * p_memb_val = NULL;
                         struct metac_memory_entry * p_member_memory_entry = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, (void**)&p_memb_val, NULL);
-- 
2.43.0


From 2bf7d89ea9cd34cb9903dc773e69451fc162422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:08 +0000
Subject: [PATCH 27/52] fix: value_deep: values of different base types are not
 equal

---
 src/value_deep.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/value_deep.c b/src/value_deep.c
index 74a742b..5242bb3 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1387,6 +1387,14 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
                     metac_recursive_iterator_done(p_iter, &cmp_res);
                     continue;
                 } else if (metac_value_is_base_type(p1->p_val) != 0 && metac_value_is_base_type(p2->p_val) != 0) {
+                    metac_name_t name1 = metac_entry_base_type_name(metac_value_entry(p1->p_val)),
+                        name2 = metac_entry_base_type_name(metac_value_entry(p2->p_val));
+                    if (name1 != NULL && name2 != NULL && strcmp(name1, name2) != 0) {
+                        /* e.g. different members of union or different types behind void* */
+                        cmp_res = 0;
+                        metac_recursive_iterator_done(p_iter, &cmp_res);
+                        continue;
+                    }
                     int _cmp = metac_value_equal_base_type(p1->p_val, p2->p_val);
                     if (_cmp < 0) {
                         metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From 9c82f8502e52eae97a9c58d7cd000f06113ab17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:12 +0000
Subject: [PATCH 28/52] fix: entry_tag: failed creation of a tag map doesn't
 destroy the context of the default tag

---
 src/entry_tag.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 56c36e6..a9ffcbc 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -122,6 +122,9 @@ metac_tag_map_t * metac_new_tag_map_ex(metac_num_t categories_count, metac_tag_m
     p_tag_map->categories_count = categories_count;
     p_tag_map->p_categories = calloc(categories_count, sizeof(*p_tag_map->p_categories));
     if (p_tag_map->p_categories == NULL) {
+        if (p_tag_map->p_default_tag != NULL) {
+            p_tag_map->p_default_tag->p_context = NULL; // the context still belongs to the caller
+        }
         _entry_tag_delete(p_tag_map->p_default_tag);
         free(p_tag_map);
         return NULL;
@@ -133,6 +136,9 @@ metac_tag_map_t * metac_new_tag_map_ex(metac_num_t categories_count, metac_tag_m
         if (p_map_entries[i].p_ext_map == NULL) {
             p_tag_map->p_categories[i].p_map = hashmapCreate(1024, addr_ptr_key_hash_tags, addr_ptr_key_equals_tags);
             if (p_tag_map->p_categories[i].p_map == NULL) {
+                if (p_tag_map->p_default_tag != NULL) {
+                    p_tag_map->p_default_tag->p_context = NULL; // the context still belongs to the caller
+                }
                 metac_tag_map_delete(p_tag_map);
                 return NULL;
             }
-- 
2.43.0


From 3182f1320af2f4fee5d739d4fffb445c039c4d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:08 +0000
Subject: [PATCH 29/52] fix: entry_tag: METAC_TAG_MAP_SET_TAG releases the
 context which wasn't taken by the map and notices a missing one

---
 include/metac/reflect/entry_tag.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/metac/reflect/entry_tag.h b/include/metac/reflect/entry_tag.h
index f2cdb9a..e8351c2 100644
--- a/include/metac/reflect/entry_tag.h
+++ b/include/metac/reflect/entry_tag.h
@@ -274,12 +274,19 @@ metac_tag_map_t * metac_new_tag_map(metac_entry_tag_t *p_default_tag);
  *  METAC_COUNT_BY, METAC_ZERO_ENDED_STRING, METAC_CONTAINER_OF, METAC_UNION_MEMBER_SELECT_BY, METAC_CAST_PTR (this can be extended by user) or combination
 */
 #define METAC_TAG_MAP_SET_TAG(_cat_, _op_, _override_, _entry_, _tag_fields_...) \
-        if (metac_tag_map_set_tag(p_map, _cat_, _override_, _entry_, _op_, METAC_TAG(_tag_fields_)) != 0) { \
-            if (append == 0) { \
-                metac_tag_map_delete(p_map); \
+        do { \
+            metac_entry_tag_t * p_new_tag = METAC_TAG(_tag_fields_); \
+            if ((p_new_tag->context_free_handler != NULL && p_new_tag->p_context == NULL) || /* context wasn't created */ \
+                metac_tag_map_set_tag(p_map, _cat_, _override_, _entry_, _op_, p_new_tag) != 0) { \
+                if (p_new_tag->context_free_handler != NULL && p_new_tag->p_context != NULL) { /* the map didn't take it */ \
+                    p_new_tag->context_free_handler(p_new_tag->p_context); \
+                } \
+                if (append == 0) { \
+                    metac_tag_map_delete(p_map); \
+                } \
+                return NULL; \
             } \
-            return NULL; \
-        }
+        } while(0);
 
 /** 
  * @brief set stringtag using this
-- 
2.43.0


From b199dcf721b6c31b908e24103f0759622f9f3af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:10 +0000
Subject: [PATCH 30/52] fix: value: enumerators in the upper half of an
 unsigned enumeration are read as they are declared

---
 src/value.c           | 38 +++++++++++++++++---------------------
 src/value_base_type.c |  3 ++-
 2 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/value.c b/src/value.c
index a28dbac..bbe3881 100644
--- a/src/value.c
+++ b/src/value.c
@@ -502,10 +502,12 @@ int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
         return -(EFAULT);
     }
 
+    /* enumerations without negative values are stored as unsigned */
+    metac_flag_t is_signed = _enumeration_is_signed(p_final_entry);
+
     metac_offset_t struct_offset = 0;
     if (_value_is_bitfield(p_val, &struct_offset) != 0) {
         uint64_t data = 0;
-        metac_flag_t is_signed = _enumeration_is_signed(p_final_entry);
         int err = _entry_bitfield_read(p_val->p_entry, p_val->addr - struct_offset, &data, sizeof(data), is_signed);
         if (err != 0) {
             return err;
@@ -514,26 +516,20 @@ int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
         return 0;
     }
 
-    if (enum_byte_size == sizeof(char)) {
-        *p_var = *(char*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(short)){
-        *p_var = *(short*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(int)){
-        *p_var = *(int*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long)){
-        *p_var = *(long*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long long)){
-        *p_var = *(long long*)p_val->addr;
-        return 0;
-    }
+#define _read_(_type_) \
+    do { \
+        if (enum_byte_size == sizeof(_type_)) { \
+            *p_var = is_signed ? (metac_const_value_t)*(signed _type_*)p_val->addr : (metac_const_value_t)*(unsigned _type_*)p_val->addr; \
+            return 0; \
+        } \
+    } while(0)
+
+    _read_(char);
+    _read_(short);
+    _read_(int);
+    _read_(long);
+    _read_(long long);
+#undef _read_
     return -(ENOTSUP);
 }
 
diff --git a/src/value_base_type.c b/src/value_base_type.c
index 42f0c10..da6ef92 100644
--- a/src/value_base_type.c
+++ b/src/value_base_type.c
@@ -254,7 +254,8 @@ int metac_value_num(metac_value_t * p_val, metac_num_t * p_var) {
     if (metac_value_is_enumeration(p_val) != 0) {
         metac_const_value_t v;
         if (metac_value_enumeration(p_val, &v) == 0) {
-            if ((metac_const_value_t)(metac_num_t)v != v) {
+            if ((metac_const_value_t)(metac_num_t)v != v &&
+                (metac_const_value_t)(unsigned int)v != v) { /* the same as unsigned int */
                 return -(ERANGE);
             }
             *p_var = (metac_num_t)v;
-- 
2.43.0


From 0e8ce2d2b34a0f5ccdfa5cc77139a1a4e2f0b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:27 +0000
Subject: [PATCH 31/52] fix: entry: recognition of va_list parameters doesn't
 depend on available memory

---
 src/entry.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/entry.c b/src/entry.c
index a9e1006..aa25859 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -643,15 +643,19 @@ metac_flag_t metac_entry_is_va_list_parameter(metac_entry_t * p_entry) {
     _check_(metac_entry_kind(p_entry) != METAC_KND_func_parameter, 0);
     _check_(p_entry->func_parameter_info.unspecified_parameters != 0, 0);
     
-    char * cdecl = metac_entry_cdecl(p_entry->func_parameter_info.type);
-    _check_(cdecl == NULL, 0);
-    int cmp_res = strcmp(cdecl, "va_list %s");
-    if (cmp_res != 0) { // linux
-        cmp_res = strcmp(cdecl, "struct __va_list_tag * %s");
+    metac_entry_t * p_type_entry = p_entry->func_parameter_info.type;
+    _check_(p_type_entry == NULL, 0);
+
+    switch (p_type_entry->kind) {
+    case METAC_KND_typedef:
+        return p_type_entry->name != NULL && strcmp(p_type_entry->name, "va_list") == 0;
+    case METAC_KND_pointer_type: // linux
+        p_type_entry = p_type_entry->pointer_type_info.type;
+        return p_type_entry != NULL && p_type_entry->kind == METAC_KND_struct_type &&
+            p_type_entry->name != NULL && strcmp(p_type_entry->name, "__va_list_tag") == 0;
+    default:
+        return 0;
     }
-    free(cdecl);
-
-    return (cmp_res == 0);
 }
 
 metac_entry_t * metac_entry_parameter_entry(metac_entry_t *p_entry) {
-- 
2.43.0


From 9787da1b7d24e07e2ce38d202ecd03b807fdd5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:06 +0000
Subject: [PATCH 32/52] fix: value_with_args: failed append and failed copy of
 parameter storage don't leave a part of parameters

---
 include/metac/backend/value.h |  3 ++
 src/value_with_args.c         | 61 ++++++++++++++++++++++-------------
 2 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/include/metac/backend/value.h b/include/metac/backend/value.h
index 8865ce3..60deb57 100644
--- a/include/metac/backend/value.h
+++ b/include/metac/backend/value.h
@@ -15,6 +15,9 @@ int metac_value_walker_hierarchy_level(metac_value_walker_hierarchy_t *p_hierarc
 metac_value_t * metac_value_walker_hierarchy_value(metac_value_walker_hierarchy_t *p_hierarchy, int req_level);
 int metac_value_event_handler_call(metac_value_event_handler_t handler, metac_recursive_iterator_t * p_iterator, metac_value_event_t * p_ev, void *p_context);
 
+/* drop all parameters after the first `size` ones (to get back to the state before the failed operation) */
+void metac_parameter_storage_truncate(metac_parameter_storage_t * p_param_storage, metac_num_t size);
+
 struct metac_memory_entry {
     metac_value_t * p_val;
     metac_size_t byte_size; /* actual size in bytes, taking into account flex arrays and etc */
diff --git a/src/value_with_args.c b/src/value_with_args.c
index 4ba049e..2f65bd8 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -39,34 +39,43 @@ metac_parameter_storage_t * metac_new_parameter_storage() {
     return p_param_storage;
 }
 
-void metac_parameter_storage_cleanup(metac_parameter_storage_t * p_param_storage) {
-    if (p_param_storage == NULL) {
-        return;
+static void _parameter_delete(metac_parameter_t * p_param) {
+    if (p_param->size == 0) {
+        metac_parameter_storage_delete((metac_parameter_storage_t *)p_param->addr);
+    } else {
+        free(p_param->addr);
     }
 
-    while (!LIST_EMPTY(&p_param_storage->list)) {
-        metac_parameter_t * p_param = LIST_FIRST(&p_param_storage->list);
-        if (p_param->size == 0) {
-            assert(p_param);
-            metac_entry_t * p_entry = p_param->p_entry;
+    if (metac_entry_is_dynamic(p_param->p_entry)!=0){
+        metac_entry_delete(p_param->p_entry);
+    }
 
-            metac_parameter_storage_t * p_inner_param_storage = (metac_parameter_storage_t *)p_param->addr;
-            if (p_inner_param_storage != NULL) {
-                metac_parameter_storage_delete(p_inner_param_storage);
-            }
-        } else {
-            free (p_param->addr);
-        }
+    LIST_REMOVE(p_param, links);
+    free(p_param);
+}
 
-        if (metac_entry_is_dynamic(p_param->p_entry)!=0){
-            metac_entry_delete(p_param->p_entry);
-        }
+void metac_parameter_storage_truncate(metac_parameter_storage_t * p_param_storage, metac_num_t size) {
+    if (p_param_storage == NULL || size < 0 || size >= p_param_storage->list_size) {
+        return;
+    }
 
-        LIST_REMOVE(p_param, links);
-        free(p_param);
+    metac_parameter_t * p_last = NULL;
+    metac_parameter_t * p_param = LIST_FIRST(&p_param_storage->list);
+    for (metac_num_t i = 0; i < size; ++i) {
+        p_last = p_param;
+        p_param = LIST_NEXT(p_param, links);
     }
-    p_param_storage->list_size = 0;
-    p_param_storage->p_last_added_param = NULL;
+    while (p_param != NULL) {
+        metac_parameter_t * p_next = LIST_NEXT(p_param, links);
+        _parameter_delete(p_param);
+        p_param = p_next;
+    }
+    p_param_storage->list_size = size;
+    p_param_storage->p_last_added_param = p_last;
+}
+
+void metac_parameter_storage_cleanup(metac_parameter_storage_t * p_param_storage) {
+    metac_parameter_storage_truncate(p_param_storage, 0);
 }
 
 void metac_parameter_storage_delete(metac_parameter_storage_t * p_param_storage) {
@@ -151,7 +160,7 @@ int metac_parameter_storage_append_by_parameter_storage(metac_parameter_storage_
     assert(metac_entry_is_unspecified_parameter(p_entry) != 0 || metac_entry_is_va_list_parameter(p_entry) != 0);
 
     metac_parameter_storage_t * p_inner_param_storage = metac_new_parameter_storage();
-    _check_(p_entry == NULL, -(ENOMEM));
+    _check_(p_inner_param_storage == NULL, -(ENOMEM));
 
     metac_parameter_t * p_param = _parameter_storage_append_by_buffer(p_param_storage,
         0,
@@ -167,11 +176,15 @@ int metac_parameter_storage_append_by_parameter_storage(metac_parameter_storage_
 }
 
 int metac_parameter_storage_copy(metac_parameter_storage_t * p_src_param_storage, metac_parameter_storage_t * p_dst_param_storage) {
+    _check_(p_src_param_storage == NULL || p_dst_param_storage == NULL, -(EINVAL));
+    metac_num_t dst_size = p_dst_param_storage->list_size;
+
     metac_parameter_t * p_param = NULL;
     LIST_FOREACH(p_param, &p_src_param_storage->list, links) {
         if (p_param->size != 0) {
             if (metac_parameter_storage_append_by_buffer(p_dst_param_storage, 
                 p_param->p_entry, p_param->size) != 0) {
+                metac_parameter_storage_truncate(p_dst_param_storage, dst_size);
                 return -(EFAULT);
             }
             assert(p_dst_param_storage->p_last_added_param != NULL);
@@ -181,6 +194,7 @@ int metac_parameter_storage_copy(metac_parameter_storage_t * p_src_param_storage
         } else {
             if (metac_parameter_storage_append_by_parameter_storage(p_dst_param_storage,
                 p_param->p_entry) != 0) {
+                metac_parameter_storage_truncate(p_dst_param_storage, dst_size);
                 return -(EFAULT);
             }
             assert(p_dst_param_storage->p_last_added_param != NULL);
@@ -189,6 +203,7 @@ int metac_parameter_storage_copy(metac_parameter_storage_t * p_src_param_storage
             metac_parameter_storage_t * p_inner_param_storage = (metac_parameter_storage_t *)p_param->addr;
             metac_parameter_storage_t * p_inner_dst_param_storage = (metac_parameter_storage_t *)p_dst_param_storage->p_last_added_param->addr;
             if (metac_parameter_storage_copy(p_inner_param_storage, p_inner_dst_param_storage) != 0) {
+                metac_parameter_storage_truncate(p_dst_param_storage, dst_size);
                 return -(EFAULT);
             }
         }
-- 
2.43.0


From 14ed3bc27c4d162f9f9d5e3d09bd16e5f41c640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:49 +0000
Subject: [PATCH 33/52] fix: value_with_args: failed capture of a call doesn't
 free twice, doesn't leak and leaves the parameter storage as it was

---
 src/value_with_args.c | 62 ++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index 2f65bd8..b430b41 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -283,41 +283,36 @@ static void _handle_subprogram(
                 return;
             }
 
-            metac_entry_tag_t * p_tag = metac_tag_map_tag(p_tag_map, p_param_entry);
-            
-            if (p_tag != NULL && p_tag->handler) {
-
-                // if parameter is va_list - we need to extract it
-                int local = 0;
-                struct va_list_container local_cntr = {};
+            // if parameter is va_list - we need to extract it
+            int local = 0;
+            struct va_list_container local_cntr = {};
 #if VA_ARG_IN_VA_ARG != 0
-                if (metac_entry_is_va_list_parameter(p_param_entry) != 0) {
-                    local = 1;
+            if (metac_entry_is_va_list_parameter(p_param_entry) != 0) {
+                local = 1;
 #if __linux__
-                    // linux (gcc) can't extract va_arg from va_arg
-                    void * p = va_arg(p_va_list_container->parameters, void*);
-                    memcpy(&local_cntr, p, sizeof(local_cntr));
+                // linux (gcc) can't extract va_arg from va_arg
+                void * p = va_arg(p_va_list_container->parameters, void*);
+                memcpy(&local_cntr, p, sizeof(local_cntr));
 #else
-                    _va_list_cp_to_container(&local_cntr, va_arg(p_va_list_container->parameters, va_list));
+                _va_list_cp_to_container(&local_cntr, va_arg(p_va_list_container->parameters, va_list));
 #endif
-                    ev.p_va_list_container = &local_cntr;
-                }
+                ev.p_va_list_container = &local_cntr;
+            }
 #endif
 
-                if (metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context) != 0) {
-                    if (local != 0){
-                        va_end(local_cntr.parameters);
-                    }
-                    metac_value_delete(ev.p_return_value);
-
+            int res = 0;
+            metac_entry_tag_t * p_tag = metac_tag_map_tag(p_tag_map, p_param_entry);
+            if (p_tag != NULL && p_tag->handler) {
+                res = metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context);
+            }
+            if (local != 0){
+                va_end(local_cntr.parameters);
+            }
+            metac_value_delete(ev.p_return_value);
 
-                    metac_recursive_iterator_fail(p_iter);
-                    return;
-                }
-                if (local != 0){
-                    va_end(local_cntr.parameters);
-                }
-                metac_value_delete(ev.p_return_value);
+            if (res != 0) {
+                metac_recursive_iterator_fail(p_iter);
+                return;
             }
         } else { /* normal param */
             void * addr = NULL;
@@ -445,8 +440,7 @@ static void _handle_subprogram(
 
                         if (addr != NULL) {
                             if (metac_entry_struct_va_arg(p_param_type_entry, p_va_list_container, addr) == 0) {
-                                free(addr);
-                                addr = NULL;
+                                addr = NULL; // the buffer belongs to the parameter storage
                                 break;
                             }
                         }
@@ -470,7 +464,14 @@ static metac_value_t * _value_parameter_wrap(metac_value_t * p_val, metac_tag_ma
     // alternativly it was possible to iterate here by params as well, but let's keep it simple for now
     // the only drawback is - we need to add special parameters into event:
     // va_list_param_id and p_va_list_load. 
+    metac_parameter_storage_t * p_param_storage = (metac_parameter_storage_t *)metac_value_addr(p_val);
+    metac_num_t size = metac_parameter_storage_size(p_param_storage);
+
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_val);
+    if (p_iter == NULL) {
+        metac_value_delete(p_val);
+        return NULL;
+    }
     for (metac_value_t * p = (metac_value_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_value_t *)metac_recursive_iterator_next(p_iter)) {
         int state = metac_recursive_iterator_get_state(p_iter);
@@ -493,6 +494,7 @@ static metac_value_t * _value_parameter_wrap(metac_value_t * p_val, metac_tag_ma
     int failed = 0;
     metac_recursive_iterator_get_out(p_iter, NULL, &failed);
     if (failed != 0) {
+        metac_parameter_storage_truncate(p_param_storage, size);
         metac_value_delete(p_val);
         p_val = NULL;
     }
-- 
2.43.0


From 9f6144795d3b8f1693431a3bae281acd7a608712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:04 +0000
Subject: [PATCH 34/52] fix: value: failed creation of a value with call
 parameters deletes its parameter storage

---
 src/value.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value.c b/src/value.c
index bbe3881..3c0ccb0 100644
--- a/src/value.c
+++ b/src/value.c
@@ -837,6 +837,9 @@ metac_value_t * metac_new_value_with_call_params(metac_entry_t *p_entry) {
     metac_parameter_storage_t * p_param_storage = metac_new_parameter_storage();
     if (p_param_storage != NULL) {
         p_val = metac_new_value(p_entry, p_param_storage);
+        if (p_val == NULL) {
+            metac_parameter_storage_delete(p_param_storage);
+        }
     }
     return p_val;
 }
-- 
2.43.0


From 74edf0dded278bfc5aca9f28847b64c83855d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:52 +0000
Subject: [PATCH 35/52] fix: printf_format: strings are stored whole, adjacent
 conversions aren't skipped, unsupported conversions fail, failures leave
 nothing

---
 src/printf_format.c | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 53aa508..92e536b 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -115,7 +115,8 @@ size_t metac_count_format_specifiers(const char *format) {
         if (format[pos] == '%') {
             // Check if a valid format specifier follows
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
-            num_specifiers++;
+                num_specifiers++;
+                continue;   // pos is already after the specifier
             }
         }
         pos++;
@@ -166,14 +167,8 @@ metac_entry_t * metac_store_printf_params_entry() {
     return metac_entry_by_paremeter_id(p_fn_entry, 2);
 }
 
-static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload, const char * format, struct va_list_container * p_cntr) {
-    if (p_pload == NULL) {
-        return -(EINVAL);
-    }
-
-    metac_num_t parameters_count = metac_count_format_specifiers(format);
-
-    metac_num_t param_id = 0;
+static int _append_values_by_format_specifiers(metac_parameter_storage_t * p_pload, const char * format, struct va_list_container * p_cntr) {
+    metac_num_t param_id = metac_parameter_storage_size(p_pload);
     size_t pos = 0;
     metac_printf_specifier_t dummy_specifier;
 
@@ -183,6 +178,9 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
                 switch (dummy_specifier.t) {
                 case 's': {
+                        if (dummy_specifier.arg_len != psal_no) { // wide strings aren't supported
+                            return -(EFAULT);
+                        }
                         WITH_METAC_DECLLOC(decl, char * p = NULL);
                         p = (char*)va_arg(p_cntr->parameters, char*);
 
@@ -206,7 +204,8 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                                 return -(EFAULT);
                             }
 
-                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, sizeof(p)) != 0) {
+                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, len+1) != 0) {
+                                metac_entry_delete(p_param_with_len_entry);
                                 return -(EFAULT);
                             }
                             metac_value_t * p_param_value = metac_parameter_storage_new_param_value(p_pload, param_id);
@@ -275,8 +274,8 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                 case 'c':
                 case 'i':
                 case 'd': {
-                        if (dummy_specifier.t == 'c' ||
-                            dummy_specifier.arg_len == psal_hh) {
+                        if ((dummy_specifier.t == 'c' && dummy_specifier.arg_len == psal_no) ||
+                            (dummy_specifier.t != 'c' && dummy_specifier.arg_len == psal_hh)) {
                             _process(char, int);
                         } else if (dummy_specifier.t != 'c') {
                             if (dummy_specifier.arg_len == psal_h) {
@@ -333,11 +332,28 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                         return -(EFAULT);
                     }
                 }
+                ++param_id;
+                continue;   // pos is already after the specifier
+            }
+            if (format[pos] != '%') { // not a %%, we don't know what this specifier takes
+                return -(EFAULT);
             }
-            ++param_id;
         }
         ++pos;
     }
 
     return 0;
+}
+
+static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload, const char * format, struct va_list_container * p_cntr) {
+    if (p_pload == NULL || format == NULL) {
+        return -(EINVAL);
+    }
+
+    metac_num_t size = metac_parameter_storage_size(p_pload);
+    int res = _append_values_by_format_specifiers(p_pload, format, p_cntr);
+    if (res != 0) {
+        metac_parameter_storage_truncate(p_pload, size);
+    }
+    return res;
 }
\ No newline at end of file
-- 
2.43.0


From 70df612b05e552bc97bd0857cbaafef7b9630495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:12 +0000
Subject: [PATCH 36/52] fix: value_deep: captured calls with variable arguments
 can be copied

---
 src/value_deep.c | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 5242bb3..cd8cb1f 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1110,6 +1110,31 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
             case METAC_R_ITER_start: {
                 int failure = 0;
                 void * p_dst_children_addr_override = NULL;
+                if (metac_value_has_parameter_load(p->p_val)) {
+                    metac_parameter_storage_t * p_param_storage = (metac_parameter_storage_t *)metac_value_addr(p->p_val);
+                    metac_parameter_storage_t * p_dst_param_storage = (metac_parameter_storage_t *)metac_value_addr(p_dst_val);
+                    struct metac_memory_entry * p_parent = metac_memory_entry_parent(p, 1);
+                    if (p_parent == NULL || metac_value_has_parameter_load(p_parent->p_val) == 0) { /* nested storage is copied with its parent */
+                        if (metac_parameter_storage_size(p_dst_param_storage) > 0) {
+                            // can't copy to non-empty (TODO: btw maybe it will be interesting feature later?)
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
+                        }
+                        if (metac_parameter_storage_copy(p_param_storage, p_dst_param_storage) !=0) {
+                            metac_parameter_storage_cleanup(p_dst_param_storage);
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;   
+                        }
+                    }
+
+                    for (metac_num_t i = 0; i < p->children_count && failure == 0; ++i) {
+                        if (p->pp_children[i] != NULL) {
+                            failure = _append_copy_dep(p_iter, p->pp_children[i], metac_parameter_storage_new_param_value(p_dst_param_storage, i));
+                        }
+                    }
+                    metac_recursive_iterator_set_state(p_iter, failure == 0?1:2);
+                    continue;
+                }
                 if (metac_value_is_pointer(p->p_val)) {
                     assert(p->children_count <= 1);
                     if (p->children_count == 1) {
@@ -1229,27 +1254,6 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                         default:
                             break;
                     }
-                } else if (metac_value_has_parameter_load(p->p_val)) {
-                    metac_parameter_storage_t * p_param_storage = (metac_parameter_storage_t *)metac_value_addr(p->p_val);
-                    metac_parameter_storage_t * p_dst_param_storage = (metac_parameter_storage_t *)metac_value_addr(p_dst_val);
-                    if (metac_parameter_storage_size(p_dst_param_storage) > 0) {
-                        // can't copy to non-empty (TODO: btw maybe it will be interesting feature later?)
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;
-                    }
-                    if (metac_parameter_storage_copy(p_param_storage, p_dst_param_storage) !=0) {
-                        metac_parameter_storage_cleanup(p_dst_param_storage);
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;   
-                    }
-
-                    for (metac_num_t i = 0; i < p->children_count && failure == 0; ++i) {
-                        if (p->pp_children[i] != NULL) {
-                            failure = _append_copy_dep(p_iter, p->pp_children[i], metac_parameter_storage_new_param_value(p_dst_param_storage, i));
-                        }
-                    }
-                    metac_recursive_iterator_set_state(p_iter, failure == 0?1:2);
-                    continue;
                 }
                 /* complex types will be covered here: */
                 for (metac_num_t i = 0; i < p->children_count && failure == 0; ++i) {
-- 
2.43.0


From ade965b15bb87a4eb5bbf394b43515ce797de79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:15 +0000
Subject: [PATCH 37/52] fix: entry_tag: hints of a value without the parent
 fail or use the constant instead of being ignored

---
 src/entry_tag.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index a9ffcbc..4357443 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -389,8 +389,7 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
     if (p_ev == NULL) {
         return -(EINVAL);
     }
-    if ((p_ev->type == METAC_RQVST_pointer_array_count || p_ev->type == METAC_RQVST_flex_array_count) &&
-        metac_value_walker_hierarchy_level(p_hierarchy) > 0) {
+    if (p_ev->type == METAC_RQVST_pointer_array_count || p_ev->type == METAC_RQVST_flex_array_count) {
         struct metac_count_by_context *p_cnxt = (struct metac_count_by_context *)p_context;
         if (p_cnxt == NULL ||
             p_cnxt->counter_sibling_entry_name == NULL ||
@@ -592,8 +591,7 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
     if (p_ev == NULL) {
         return -(EINVAL);
     }
-    if (p_ev->type == METAC_RQVST_union_member && 
-        metac_value_walker_hierarchy_level(p_hierarchy) > 0) {
+    if (p_ev->type == METAC_RQVST_union_member) {
 
         struct metac_union_member_select_by_context *p_cnxt = (struct metac_union_member_select_by_context *)p_context;
         if (p_cnxt == NULL) {
@@ -748,8 +746,7 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
     if (p_ev == NULL) {
         return -(EINVAL);
     }
-    if (p_ev->type == METAC_RQVST_pointer_array_count && 
-        metac_value_walker_hierarchy_level(p_hierarchy) > 0) {
+    if (p_ev->type == METAC_RQVST_pointer_array_count) {
 
         struct metac_ptr_cast_context *p_cnxt = (struct metac_ptr_cast_context *)p_context;
         if (p_cnxt == NULL ||
-- 
2.43.0


From a3edb040e87ca9de5ac8064c9109321aa24ab6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:43 +0000
Subject: [PATCH 38/52] fix: entry_tag: zero ended string can be a flexible
 array

---
 src/entry_tag.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 4357443..9c1aabc 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -460,19 +460,24 @@ int metac_handle_zero_ended_string(metac_value_walker_hierarchy_t *p_hierarchy,
         metac_value_walker_hierarchy_level(p_hierarchy) >= 0) {
         
         metac_value_t *p_val = metac_value_walker_hierarchy_value(p_hierarchy, 0);
-        if (p_val == NULL || metac_value_is_pointer(p_val) == 0) {
+        if (p_val == NULL) {
             return -(EFAULT);
         }
-        metac_entry_t *p_target_entry = metac_entry_final_entry(metac_entry_pointer_entry(metac_value_entry(p_val)), NULL);
+        metac_entry_t *p_target_entry = NULL;
+        char * ptr = NULL;
+        if (metac_value_is_pointer(p_val) != 0) {
+            p_target_entry = metac_entry_final_entry(metac_entry_pointer_entry(metac_value_entry(p_val)), NULL);
+            if (metac_value_pointer(p_val, (void**)&ptr) != 0) {
+                return -(EFAULT);
+            }
+        } else if (metac_value_has_elements(p_val) != 0) { /* flexible array */
+            p_target_entry = metac_entry_final_entry(metac_entry_element_entry(metac_value_entry(p_val)), NULL);
+            ptr = (char *)metac_value_addr(p_val);
+        }
         if (p_target_entry == NULL || metac_entry_kind(p_target_entry) != METAC_KND_base_type ||
             metac_entry_name(p_target_entry) == NULL || strcmp(metac_entry_name(p_target_entry), "char") != 0) {
             return -(EFAULT);
         }
-
-        char * ptr = NULL;
-        if (metac_value_pointer(p_val, (void**)&ptr) != 0) {
-            return -(EFAULT);
-        }
         if (ptr == NULL) {
             return -(EFAULT); /* shouldn't be here*/
         }
-- 
2.43.0


From 7b4d155372ddb100adcad09bdec478d90d604009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:18 +0000
Subject: [PATCH 39/52] fix: metadb: result depends on the order of a Go map,
 pointers may lead to a declaration instead of the definition

---
 pkg/metadb/metadb_builder.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index fc292d7..a8caa64 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"path/filepath"
+	"sort"
 
 	"github.com/aodinokov/metac/pkg/dwarfy"
 	"github.com/huandu/xstrings"
@@ -826,11 +827,21 @@ func (builder *MetaDbBuilder) build() error {
 func (builder *MetaDbBuilder) deduplicateTypes() error {
 	headerSignatures := map[string]*IndexEntry{}
 	signatures := map[string]map[string]*IndexEntry{}
-	// go via all indexes, find only types
+	// go via all indexes always in the same order: all definitions first, declarations after them
+	sorted := make([]*IndexEntry, 0, len(builder.index))
 	for _, indx := range builder.index {
-		if indx.p == nil {
-			continue
+		if indx.p != nil {
+			sorted = append(sorted, indx)
 		}
+	}
+	sort.Slice(sorted, func(i, j int) bool {
+		if sorted[i].isDeclaration() != sorted[j].isDeclaration() {
+			return sorted[j].isDeclaration()
+		}
+		return sorted[i].Offset < sorted[j].Offset
+	})
+	// find only types
+	for _, indx := range sorted {
 		if isTypeTag(indx.Tag) {
 			// skip children of duplicated entries
 			pIndx, _, err := builder.getIndex(*indx.Entry.Parent)
@@ -848,6 +859,18 @@ func (builder *MetaDbBuilder) deduplicateTypes() error {
 			}
 			if indx.isDeclaration() { // declarations can be deduplicated by header signature
 				found, ok := headerSignatures[hs]
+				if pIndx.Tag == "CompileUnit" && len(signatures[hs]) == 1 {
+					// the same type is defined in another compile unit
+					for _, definition := range signatures[hs] {
+						dIndx, _, err := builder.getIndex(*definition.Entry.Parent)
+						if err != nil {
+							return err
+						}
+						if dIndx.Tag == "CompileUnit" {
+							found, ok = definition, true
+						}
+					}
+				}
 				if ok {
 					//merge parents
 					icmnt := indx.GetCommonType()
-- 
2.43.0


From 9abdfae0a8ea825e68b846f6206336c6add07288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:18 +0000
Subject: [PATCH 40/52] fix: metadb: const volatile and volatile const types
 aren't treated as the same type

---
 pkg/metadb/metadb_types.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/metadb/metadb_types.go b/pkg/metadb/metadb_types.go
index 7383df6..6a7994a 100644
--- a/pkg/metadb/metadb_types.go
+++ b/pkg/metadb/metadb_types.go
@@ -2,6 +2,8 @@ package metadb
 
 import (
 	"fmt"
+	"sort"
+	"strings"
 
 	"github.com/aodinokov/metac/pkg/dwarfy"
 )
@@ -220,7 +222,23 @@ func (s *QualType) streamline() {
 }
 
 func (q *QualType) Signature(comparable bool) (string, error) {
-	signature := "QualType:" + q.Qual + ","
+	// the order of qualifiers doesn't matter: const volatile and volatile const is the same type
+	quals := []string{q.Qual}
+	t := q.Type.p
+	for q.Name == nil {
+		index, ok := t.(*IndexEntry)
+		if ok && index.p != nil {
+			t = index.p
+		}
+		next, ok := t.(*QualType)
+		if !ok || next.Name != nil {
+			break
+		}
+		quals = append(quals, next.Qual)
+		t = next.Type.p
+	}
+	sort.Strings(quals)
+	signature := "QualType:" + strings.Join(quals, ",") + ","
 	if q.Name != nil {
 		signature += *q.Name
 		if !comparable {
@@ -228,9 +246,9 @@ func (q *QualType) Signature(comparable bool) (string, error) {
 		}
 	}
 	comparable = false
-	if q.Type.p != nil {
+	if t != nil {
 		signature += "From:("
-		s, err := q.Type.p.Signature(comparable)
+		s, err := t.Signature(comparable)
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From 7cd9314577fbf2d06050b9d947de903fc4a9ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:18 +0000
Subject: [PATCH 41/52] fix: metac exits with 0 when it fails or can't write
 the result

---
 cmd/run/run.go |  4 ++--
 main.go        | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/cmd/run/run.go b/cmd/run/run.go
index b047035..5733ec3 100644
--- a/cmd/run/run.go
+++ b/cmd/run/run.go
@@ -44,9 +44,9 @@ func NewCommand() *cobra.Command {
 			if err != nil {
 				return err
 			}
-			fmt.Printf("%s\n", string(output))
+			_, err = fmt.Printf("%s\n", string(output))
 
-			return nil
+			return err
 		},
 	}
 
diff --git a/main.go b/main.go
index 9ff9267..2e137f1 100644
--- a/main.go
+++ b/main.go
@@ -1,7 +1,13 @@
 package main
 
-import "github.com/aodinokov/metac/cmd/run"
+import (
+	"os"
+
+	"github.com/aodinokov/metac/cmd/run"
+)
 
 func main() {
-	run.NewCommand().Execute()
+	if err := run.NewCommand().Execute(); err != nil {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 8f55e8e14051d7abdd1c8d96334989af98b2e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:19 +0000
Subject: [PATCH 42/52] fix: metac-reflect-gen: METAC_DB_LINK gets the
 structure where the pointer is expected

---
 modules/metac-reflect-gen/templates/_db_v0.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/metac-reflect-gen/templates/_db_v0.tpl b/modules/metac-reflect-gen/templates/_db_v0.tpl
index c97c6a1..e3c50e9 100644
--- a/modules/metac-reflect-gen/templates/_db_v0.tpl
+++ b/modules/metac-reflect-gen/templates/_db_v0.tpl
@@ -11,7 +11,7 @@
 {{-       end -}}
 {{-     end }}
 /* db */
-struct metac_db METAC_DB_NAME() = {
+struct metac_db *METAC_DB_NAME() = (struct metac_db[]) {{ "{{" }}
     .version = 0,
     .db_v0 = {
 {{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "base_types" $metaDb.BaseTypes)) -}}
@@ -25,7 +25,7 @@ struct metac_db METAC_DB_NAME() = {
 {{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "subprograms" $metaDb.Subprograms)) -}}
 {{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "compile_units" $metaDb.CompileUnits)) }}
     },
-};
+{{ "}}" }};
 {{-   end -}}
 {{- end -}}
 {{- /* helper */ -}}
-- 
2.43.0


From b7fc1d47b0fbec1876978560e78621dfae3b7ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:19 +0000
Subject: [PATCH 43/52] fix: dwarfy: 64-bit values are rounded when they are
 read from json

---
 pkg/dwarfy/dwarf.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index a55acaf..2203b2e 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -1,9 +1,11 @@
 package dwarfy
 
 import (
+	"bytes"
 	"debug/dwarf"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 
 	"gopkg.in/yaml.v3"
@@ -155,6 +157,17 @@ func (f *Field) fixValBasedOnClass() {
 	// For unrecognized or vendor-defined attributes, Class may be
 	// ClassUnknown.
 
+	// produced by json module: use integers since float64 isn't precise enough for 64-bit values
+	if number, ok := f.Val.(json.Number); ok {
+		if val, err := strconv.ParseInt(number.String(), 10, 64); err == nil {
+			f.Val = val
+		} else if val, err := strconv.ParseUint(number.String(), 10, 64); err == nil {
+			f.Val = val
+		} else if val, err := number.Float64(); err == nil {
+			f.Val = val
+		}
+	}
+
 	switch f.Class {
 	case "ClassAddress":
 		fallthrough
@@ -164,6 +177,8 @@ func (f *Field) fixValBasedOnClass() {
 			f.Val = uint64(f.Val.(float64))
 		case int:
 			f.Val = uint64(f.Val.(int))
+		case int64:
+			f.Val = uint64(f.Val.(int64))
 		}
 	case "ClassReference":
 		switch f.Val.(type) {
@@ -171,6 +186,8 @@ func (f *Field) fixValBasedOnClass() {
 			f.Val = Offset(f.Val.(float64))
 		case int:
 			f.Val = Offset(f.Val.(int))
+		case int64:
+			f.Val = Offset(f.Val.(int64))
 		case dwarf.Offset:
 			f.Val = Offset(f.Val.(dwarf.Offset))
 		}
@@ -211,6 +228,11 @@ func (f *Field) fixValBasedOnClass() {
 					r = append(r, int(val))
 				case float64:
 					r = append(r, int(val))
+				case json.Number:
+					i, err := val.Int64()
+					if err == nil {
+						r = append(r, int(i))
+					}
 				}
 			}
 			f.Val = r
@@ -547,10 +569,15 @@ func NewDataFromUnstructured(iu interface{}) (*Data, error) {
 
 func NewDataFromJsonBuffer(buf []byte) (*Data, error) {
 	data := Data{}
-	err := json.Unmarshal(buf, &data)
+	decoder := json.NewDecoder(bytes.NewReader(buf))
+	decoder.UseNumber()
+	err := decoder.Decode(&data)
 	if err != nil {
 		return nil, err
 	}
+	if _, err = decoder.Token(); err != io.EOF {
+		return nil, fmt.Errorf("unexpected data after the end of json")
+	}
 	data.fixValBasedOnClass()
 	return &data, nil
 }
-- 
2.43.0


From ffdfdd9dae752267cb04acdd9a2af8e9798c682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:19 +0000
Subject: [PATCH 44/52] fix: gotemplate: a failed change of the working
 directory is ignored

---
 pkg/module/gotemplate/gotemplate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/module/gotemplate/gotemplate.go b/pkg/module/gotemplate/gotemplate.go
index f1268aa..2fa67ab 100644
--- a/pkg/module/gotemplate/gotemplate.go
+++ b/pkg/module/gotemplate/gotemplate.go
@@ -170,7 +170,10 @@ func (i *GoTemplateInstance) Run(workDir string, overrides []string) ([]byte, er
 		if err != nil {
 			return nil, fmt.Errorf("couldn't change workdir %v", err)
 		}
-		os.Chdir(workDir)
+		err = os.Chdir(workDir)
+		if err != nil {
+			return nil, fmt.Errorf("couldn't change workdir %v", err)
+		}
 	}
 
 	// finally exec our module
-- 
2.43.0


From 224e2610cf00a2905d36a0c410eebb785b902976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:19 +0000
Subject: [PATCH 45/52] fix: metac.mk: an incomplete file stays as the target
 when metac fails

---
 mk/metac.mk | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mk/metac.mk b/mk/metac.mk
index a827990..5bcf7e0 100644
--- a/mk/metac.mk
+++ b/mk/metac.mk
@@ -44,7 +44,8 @@ METAC_OVERRIDE_IN_TYPE=-s 'path_type: "$(METAC_DWARFY_SRC)"'
 define metac_target_tpl
 # generate c file from some binary using METAC
 $$(addprefix $1/,$2): $$(addprefix $1/,$$(IN-$2)) $$(METAC)
-	$$(METAC) $$(METACFLAGS-$2) -s 'path: "$$(METAC_PATH_CONV_CMD)"' > $$@
+	$$(METAC) $$(METACFLAGS-$2) -s 'path: "$$(METAC_PATH_CONV_CMD)"' > $$@.tmp
+	mv -f $$@.tmp $$@
 endef
 metac_target=$(eval $(call metac_target_tpl,$1,$2))
 
-- 
2.43.0


From cf01911bc639a73e58cbfefa16f51e13b1290b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:43 +0000
Subject: [PATCH 46/52] fix: module: a module that can't be read is replaced by
 one from the next path

---
 pkg/module/module.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/module/module.go b/pkg/module/module.go
index 1592cba..b01dfe2 100644
--- a/pkg/module/module.go
+++ b/pkg/module/module.go
@@ -1,11 +1,14 @@
 package module
 
 import (
+	"errors"
 	"fmt"
+	"io/fs"
 	"io/ioutil"
 	"log"
 	"path/filepath"
 	"strings"
+	"syscall"
 
 	"gopkg.in/yaml.v3"
 )
@@ -123,6 +126,11 @@ func (mr *Runner) InfoByName(name string) ([]*struct {
 		moduleYamlPath := filepath.FromSlash(filepath.ToSlash(modulePath) + "/" + SpecFilename)
 		spec, err := mr.GetSpecHeader(moduleYamlPath)
 		if err != nil {
+			var pathErr *fs.PathError
+			if errors.As(err, &pathErr) && !errors.Is(err, fs.ErrNotExist) && !errors.Is(err, syscall.ENOTDIR) {
+				// the module is there, but can't be read - we can't replace it with another one
+				return nil, err
+			}
 			log.Printf("%v trying next path", err)
 			continue
 		}
-- 
2.43.0


From dacb98db997099a4494afbe9e40f525e36aaa283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:06 +0000
Subject: [PATCH 47/52] fix: gotemplate: templates that can't be read are
 replaced by ones from the next path

---
 pkg/module/gotemplate/gotemplate.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/module/gotemplate/gotemplate.go b/pkg/module/gotemplate/gotemplate.go
index 2fa67ab..8b3b984 100644
--- a/pkg/module/gotemplate/gotemplate.go
+++ b/pkg/module/gotemplate/gotemplate.go
@@ -2,6 +2,7 @@ package gotemplate
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io/fs"
 	"io/ioutil"
@@ -67,6 +68,8 @@ type GoTemplateInstance struct {
 	moduleSpec   *GoTemplateModuleSpec
 }
 
+var errNoTemplates = errors.New("error to load from templates subdirectory")
+
 func (i *GoTemplateInstance) handleIncludes(tmpl *template.Template, path string) error {
 	// find folder templates and load all files from there
 	templatesPath := filepath.FromSlash(filepath.ToSlash(path) + "/templates")
@@ -76,7 +79,7 @@ func (i *GoTemplateInstance) handleIncludes(tmpl *template.Template, path string
 			// it's ok for the module itself not to have the folder
 			return nil
 		}
-		return fmt.Errorf("couldn't include %s: error to load from templates subdirectory", path)
+		return fmt.Errorf("couldn't include %s: %w", path, errNoTemplates)
 	}
 
 	// load everything include subfolders
@@ -156,6 +159,10 @@ func (i *GoTemplateInstance) Run(workDir string, overrides []string) ([]byte, er
 			if err == nil {
 				break
 			}
+			if !errors.Is(err, errNoTemplates) {
+				// a part of templates can be loaded already
+				return nil, fmt.Errorf("couldn't load includes of module %s: %v", moduleName, err)
+			}
 			errs = append(errs, fmt.Errorf("error processing kind %s path %s: %v", infoInst.Kind, infoInst.Path, err))
 		}
 		if len(errs) == len(info) {
-- 
2.43.0


From 470b6c6789b8f60e7f6d4354f4660ea0fe00d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:09 +0000
Subject: [PATCH 48/52] fix: gotemplate: a templates folder that can't be
 examined is treated as a missing one

---
 pkg/module/gotemplate/gotemplate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/module/gotemplate/gotemplate.go b/pkg/module/gotemplate/gotemplate.go
index 8b3b984..5e8bd74 100644
--- a/pkg/module/gotemplate/gotemplate.go
+++ b/pkg/module/gotemplate/gotemplate.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"syscall"
 	"text/template"
 
 	"github.com/Masterminds/sprig/v3"
@@ -74,6 +75,10 @@ func (i *GoTemplateInstance) handleIncludes(tmpl *template.Template, path string
 	// find folder templates and load all files from there
 	templatesPath := filepath.FromSlash(filepath.ToSlash(path) + "/templates")
 	info, err := os.Stat(templatesPath)
+	if err != nil && !errors.Is(err, fs.ErrNotExist) && !errors.Is(err, syscall.ENOTDIR) {
+		// the folder can be there - it's not possible to say what it has
+		return err
+	}
 	if err != nil || !info.IsDir() {
 		if path == i.path {
 			// it's ok for the module itself not to have the folder
-- 
2.43.0


From a75cfe467b5fa0164222d5ca05591b6f9d397f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:56 +0000
Subject: [PATCH 49/52] fix: funcs: a failure to export dwarf data into a file
 doesn't stop the template

---
 pkg/module/gotemplate/funcs/funcs.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/module/gotemplate/funcs/funcs.go b/pkg/module/gotemplate/funcs/funcs.go
index ce479e9..46227f1 100644
--- a/pkg/module/gotemplate/funcs/funcs.go
+++ b/pkg/module/gotemplate/funcs/funcs.go
@@ -70,27 +70,28 @@ var genericMap = map[string]interface{}{
 	"dwarfFromJson":         dwarfy.NewDataFromJsonBuffer,
 	"dwarfFromUnstructured": dwarfy.NewDataFromUnstructured,
 
-	"dwarfToYamlFile": func(data *dwarfy.Data, filename string) error {
+	// the template engine stops only if the error is the second value
+	"dwarfToYamlFile": func(data *dwarfy.Data, filename string) (string, error) {
 		buf, err := data.ToYamlBuffer()
 		if err != nil {
-			return fmt.Errorf("could not serialize to buffer: %v", err)
+			return "", fmt.Errorf("could not serialize to buffer: %v", err)
 		}
 		err = ioutil.WriteFile(filename, buf, 0644)
 		if err != nil {
-			return fmt.Errorf("could not write to file %s: %v", filename, err)
+			return "", fmt.Errorf("could not write to file %s: %v", filename, err)
 		}
-		return nil
+		return "", nil
 	},
-	"dwarfToJsonFile": func(data *dwarfy.Data, filename string) error {
+	"dwarfToJsonFile": func(data *dwarfy.Data, filename string) (string, error) {
 		buf, err := data.ToJsonBuffer()
 		if err != nil {
-			return fmt.Errorf("could not serialize to buffer: %v", err)
+			return "", fmt.Errorf("could not serialize to buffer: %v", err)
 		}
 		err = ioutil.WriteFile(filename, buf, 0644)
 		if err != nil {
-			return fmt.Errorf("could not write to file %s: %v", filename, err)
+			return "", fmt.Errorf("could not write to file %s: %v", filename, err)
 		}
-		return nil
+		return "", nil
 	},
 
 	"dwarfToYaml": func(data *dwarfy.Data) (string, error) {
-- 
2.43.0


From 4d098162f8a39d443998592bd1aecdd9e7e41779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:55 +0000
Subject: [PATCH 50/52] fix: metadb: structures that differ only in the byte
 position of a bit-field are taken for one type

---
 pkg/metadb/metadb_types.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/metadb/metadb_types.go b/pkg/metadb/metadb_types.go
index 6a7994a..4503b40 100644
--- a/pkg/metadb/metadb_types.go
+++ b/pkg/metadb/metadb_types.go
@@ -596,9 +596,8 @@ func (s *StructType) Signature(comparable bool) (string, error) {
 			}
 			if p.BitOffset != nil {
 				signature += "BitOffset:" + fmt.Sprintf("%d", *p.BitOffset) + ","
-			} else {
-				signature += "ByteOffset:" + fmt.Sprintf("%d", p.ByteOffset) + ","
 			}
+			signature += "ByteOffset:" + fmt.Sprintf("%d", p.ByteOffset) + ","
 			if p.DataBitOffset != nil {
 				signature += "DataBitOffset:" + fmt.Sprintf("%d", *p.DataBitOffset) + ","
 			}
-- 
2.43.0


From 00e705197afcb9953402bbd5b36dff3f2747ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:17 +0000
Subject: [PATCH 51/52] fix: value_deep: pointers into the memory of the
 top-level value aren't blocks of their own

---
 include/metac/backend/value.h |  1 +
 src/value_deep.c              | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/metac/backend/value.h b/include/metac/backend/value.h
index 60deb57..2c11372 100644
--- a/include/metac/backend/value.h
+++ b/include/metac/backend/value.h
@@ -32,6 +32,7 @@ struct metac_memory_entry {
     /* the next fields are used only with pointers parents */
     int loop_level; /*if > 0 - references the number of parent to pass to find children */
     metac_size_t offset_from_allocate_base;   /* 0 if pointer looks at the beginning of allocated area. otherwise if will point to the region whihch belongs to someone else */
+    metac_flag_t inside_top;    /* non-zero if the region belongs to the memory of the top-level value */
 };
 
 struct metac_memory_entry * metac_new_memory_entry(metac_value_t * p_val, metac_size_t byte_size, metac_num_t children_count);
diff --git a/src/value_deep.c b/src/value_deep.c
index cd8cb1f..cc835db 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -259,6 +259,10 @@ static int _identify_allocatable_entries(struct metac_memory_map * p_map) {
     /* sort keys for sweep line algorithm */
     qsort(context.p_keys, context.len, sizeof(*context.p_keys), _sort_addr_);
 
+    /* memory of the top-level value isn't allocatable */
+    void *p_top = metac_value_addr(p_map->p_top_entry->p_val);
+    void *p_top_end = p_top + p_map->p_top_entry->byte_size;
+
     /* sweep line*/
     void *p_main = NULL;
     struct metac_memory_entry * p_main_entry = NULL;
@@ -267,6 +271,11 @@ static int _identify_allocatable_entries(struct metac_memory_map * p_map) {
         struct metac_memory_entry * p_current_entry = hashmapGet(p_map->p_addr_ptr_val_to_memory_entry, p_current);
         assert(p_current_entry != NULL);
 
+        if (p_current >= p_top && p_current < p_top_end && p_current + p_current_entry->byte_size <= p_top_end) {
+            p_current_entry->inside_top = 1;
+            continue;
+        }
+
         if (p_current_entry->byte_size <= 0) {
             // artificial elements, like param/function loads or empty arrays
             if (p_main != NULL && p_current < p_main + p_main_entry->byte_size) {
@@ -910,7 +919,7 @@ static bool _value_free(void* key, void* value, void* context) {
     struct _metac_value_free_context * p_context = (struct _metac_value_free_context *)context;
     void* ptr = key;
     struct metac_memory_entry *p_ptr_entry = (struct metac_memory_entry *)value;
-    if (p_ptr_entry->offset_from_allocate_base == 0) { /* delete non weak only */
+    if (p_ptr_entry->inside_top == 0 && p_ptr_entry->offset_from_allocate_base == 0) { /* delete non weak only */
         if (p_context->free_fn != NULL) {
             p_context->free_fn(ptr);
         }
@@ -968,7 +977,7 @@ static bool _value_copy_preallocate(void* key, void* value, void* context) {
     }
 
     struct metac_memory_entry *p_ptr_entry = (struct metac_memory_entry *)value;
-    if (p_ptr_entry->offset_from_allocate_base == 0) { /* delete non weak only */
+    if (p_ptr_entry->inside_top == 0 && p_ptr_entry->offset_from_allocate_base == 0) { /* delete non weak only */
         void * dst = p_context->calloc_fn(1, p_ptr_entry->byte_size);
         if (dst == NULL) {
             p_context->preallocation_failed = 1;
@@ -1098,6 +1107,7 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         }
     }
 
+    void * p_dst_top = metac_value_addr(p_dst_val);
     context.p_map->p_top_entry->private_data = p_dst_val;
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(context.p_map->p_top_entry);
     for (struct metac_memory_entry * p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter); p != NULL;
@@ -1171,7 +1181,9 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                 /* there may be several entries with this address, only the one from the map knows the offset */
                                 p_src_entry = (struct metac_memory_entry *)hashmapGet(context.p_map->p_addr_ptr_val_to_memory_entry, src);
                                 assert(p_src_entry != NULL);
-                                if (p_src_entry->offset_from_allocate_base != 0) {
+                                if (p_src_entry->inside_top != 0) {
+                                    p_dst_children_addr_override = p_dst_top + (src - metac_value_addr(p_src_val));
+                                } else if (p_src_entry->offset_from_allocate_base != 0) {
                                     void * allocate_src = src - p_src_entry->offset_from_allocate_base;
                                     void * allocate_dst = hashmapGet(context.src_to_dst, allocate_src);
                                     if (allocate_dst == NULL) {
-- 
2.43.0


From 2b5715392061a735aea47f4d2ce03a5021672cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:30 +0000
Subject: [PATCH 52/52] fix: value_base_type: text of long double complex
 values isn't cut to double

---
 src/value_base_type.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/value_base_type.c b/src/value_base_type.c
index da6ef92..bef94d5 100644
--- a/src/value_base_type.c
+++ b/src/value_base_type.c
@@ -394,10 +394,10 @@ char *metac_value_base_type_string(metac_value_t * p_val) {
             if (metac_value_##_pseudoname_(p_val, &v) != 0) { \
                 return NULL; \
             } \
-            if (cimag(v) < 0.0) { \
-                return dsprintf( "%lf - I * %lf", creal(v), -1.0 * cimag(v)); \
+            if (cimagl(v) < 0.0) { \
+                return dsprintf( "%Lf - I * %Lf", creall(v), -1.0L * cimagl(v)); \
             } \
-            return dsprintf( "%lf + I * %lf", creal(v), cimag(v)); \
+            return dsprintf( "%Lf + I * %Lf", creall(v), cimagl(v)); \
         } \
     } while(0)
     _string_(float complex, float_complex);
-- 
2.43.0

