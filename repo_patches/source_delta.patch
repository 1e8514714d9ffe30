From a5df850ef904bc15c33db3bc0600a3eb7d664aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 001/122] fix: delete every row a DELETE selects

Deleting a row moves the following rows up, so a loop over increasing row
numbers skipped every other row.
---
 libmsi/delete.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libmsi/delete.c b/libmsi/delete.c
index 3a3623c..9c4c911 100644
--- a/libmsi/delete.c
+++ b/libmsi/delete.c
@@ -85,9 +85,14 @@ static unsigned delete_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     TRACE("deleting %d rows\n", rows);
 
-    /* blank out all the rows that match */
-    for ( i=0; i<rows; i++ )
-        dv->table->ops->delete_row( dv->table, i );
+    /* delete all the rows that match, last one first: deleting a row moves
+     * the rows after it */
+    for ( i=rows; i>0; i-- )
+    {
+        r = dv->table->ops->delete_row( dv->table, i - 1 );
+        if( r != LIBMSI_RESULT_SUCCESS )
+            return r;
+    }
 
     return LIBMSI_RESULT_SUCCESS;
 }
-- 
2.43.0


From c2495a75f21338db0a23be1214357823c0ae71a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 002/122] fix: bind each wildcard of a join condition to its
 own parameter

A string comparison whose left column belongs to a table not joined yet did
not consume the wildcard on its right, shifting all later parameters.
---
 libmsi/where.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index f0a3082..8e6d9a4 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -512,15 +512,14 @@ static unsigned expr_eval_strcmp( LibmsiWhereView *wv, const unsigned rows[], co
 {
     int sr;
     const char *l_str, *r_str;
-    unsigned r;
+    unsigned rl, rr;
 
     *val = true;
-    r = expr_eval_string(wv, rows, expr->left, record, &l_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
-        return r;
-    r = expr_eval_string(wv, rows, expr->right, record, &r_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
-        return r;
+    /* always evaluate both sides, so that each wildcard takes its parameter */
+    rl = expr_eval_string(wv, rows, expr->left, record, &l_str);
+    rr = expr_eval_string(wv, rows, expr->right, record, &r_str);
+    if (rl == LIBMSI_RESULT_CONTINUE || rr == LIBMSI_RESULT_CONTINUE)
+        return LIBMSI_RESULT_CONTINUE;
 
     if( l_str == r_str ||
         ((!l_str || !*l_str) && (!r_str || !*r_str)) )
-- 
2.43.0


From 18cd9843a049a3539466f465fae507e45c0760c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 003/122] fix: give UPDATE and INSERT parameters their places

UPDATE skipped one parameter for each literal it assigns before binding its
WHERE clause, and INSERT reported success without inserting anything when the
parameters were missing.
---
 libmsi/insert.c | 3 +++
 libmsi/update.c | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/libmsi/insert.c b/libmsi/insert.c
index 11edffe..a5828ec 100644
--- a/libmsi/insert.c
+++ b/libmsi/insert.c
@@ -223,7 +223,10 @@ static unsigned insert_view_execute( LibmsiView *view, LibmsiRecord *record )
      */
     values = msi_query_merge_record( col_count, iv->vals, record );
     if( !values )
+    {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto err;
+    }
 
     r = msi_arrange_record( iv, &values );
     if( r != LIBMSI_RESULT_SUCCESS )
diff --git a/libmsi/update.c b/libmsi/update.c
index 95effb4..39749e1 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -64,11 +64,13 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
     {
         r = libmsi_record_get_field_count(record);
 
+        /* only the wildcards among the new values take a parameter */
         for (i = 0; col; col = col->next)
-            i++;
+            if (col->val->type == EXPR_WILDCARD)
+                i++;
 
         cols_count = i;
-        where_count = r - i;
+        where_count = r > i ? r - i : 0;
 
         if (where_count > 0)
         {
-- 
2.43.0


From 4b5f265f50e5dc43a86f2609f748f28a0e2b9c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 004/122] fix: store every permanent row of a table that also
 has temporary rows

The rows after the first temporary one were dropped, and the buffer was sized
for a single row whatever the number of rows before it.
---
 libmsi/table.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 5e0a6f8..7f9bade 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -871,7 +871,7 @@ err:
 static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned bytes_per_strref )
 {
     uint8_t *rawdata = NULL;
-    unsigned rawsize, i, j, row_size, row_count;
+    unsigned rawsize, i, j, row = 0, row_size, row_count;
     unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* Nothing to do for non-persistent tables */
@@ -888,15 +888,15 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
     TRACE("Saving %s\n", debugstr_a( t->name ) );
 
     row_size = msi_table_get_row_size( db, t->colinfo, t->col_count, bytes_per_strref );
-    row_count = t->row_count;
+    row_count = 0;
     for (i = 0; i < t->row_count; i++)
     {
-        if (!t->data_persistent[i])
-        {
-            row_count = 1; /* yes, this is bizarre */
-            break;
-        }
+        if (t->data_persistent[i])
+            row_count++;
     }
+    if ( row_count == 0 && strcmp(t->name, szTables) )
+        return LIBMSI_RESULT_SUCCESS;
+
     rawsize = row_count * row_size;
     rawdata = msi_alloc_zero( rawsize );
     if( !rawdata )
@@ -910,7 +910,7 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
     {
         unsigned ofs = 0, ofs_mem = 0;
 
-        if (!t->data_persistent[i]) break;
+        if (!t->data_persistent[i]) continue;
 
         for (j = 0; j < t->col_count; j++)
         {
@@ -934,12 +934,13 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
             }
             for (k = 0; k < n; k++)
             {
-                rawdata[ofs * row_count + i * n + k] = t->data[i][ofs_mem + k];
+                rawdata[ofs * row_count + row * n + k] = t->data[i][ofs_mem + k];
             }
             ofs_mem += m;
             ofs += n;
         }
         rawsize += row_size;
+        row++;
     }
 
     TRACE("writing %d bytes\n", rawsize);
-- 
2.43.0


From f50fbf713fdfa4fb3b2d9e02a662dc19ddafcc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 005/122] fix: store strings shared by temporary and permanent
 data

A string first used by a temporary row or a stream name had no permanent
reference, so a permanent row using it later lost its value on commit.
---
 libmsi/msipriv.h | 1 +
 libmsi/string.c  | 8 ++++++++
 libmsi/table.c   | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index 086dd55..4821234 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -344,6 +344,7 @@ enum StringPersistence
 };
 
 extern int _libmsi_add_string( string_table *st, const char *data, int len, uint16_t refcount, enum StringPersistence persistence );
+extern void msi_string_make_persistent( string_table *st, unsigned id );
 extern unsigned _libmsi_id_from_string_utf8( const string_table *st, const char *buffer, unsigned *id );
 extern void msi_destroy_stringtable( string_table *st );
 extern const char *msi_string_lookup_id( const string_table *st, unsigned id );
diff --git a/libmsi/string.c b/libmsi/string.c
index 0b20c0b..0197686 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -342,6 +342,14 @@ int _libmsi_add_string( string_table *st, const char *data, int len, uint16_t re
     return n;
 }
 
+/* a string that was only used by temporary data so far is used by data that
+ * will be saved */
+void msi_string_make_persistent( string_table *st, unsigned id )
+{
+    if( id && id < st->maxcount && !st->strings[id].persistent_refcount )
+        st->strings[id].persistent_refcount = 1;
+}
+
 /* find the string identified by an id - return null if there's none */
 G_GNUC_PURE
 const char *msi_string_lookup_id( const string_table *st, unsigned id )
diff --git a/libmsi/table.c b/libmsi/table.c
index 7f9bade..522688f 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1375,6 +1375,8 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
                 }
                 else
                 {
+                    if ( persistent )
+                        msi_string_make_persistent( tv->db->strings, val );
                     table_view_fetch_int(&tv->view, row, i + 1, &x);
                     if (val == x)
                         continue;
-- 
2.43.0


From 3ede3a2712d62a9576f2c2455d553ad33c44d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 006/122] fix: handle tables with 32 columns, and refuse wider
 ones

The column mask of a 32 column table was computed by shifting 1 by 32 bits:
rows were stored with all fields NULL and updates were refused.
---
 libmsi/alter.c   | 5 +++++
 libmsi/create.c  | 5 +++++
 libmsi/msipriv.h | 9 +++++++++
 libmsi/select.c  | 4 ++--
 libmsi/table.c   | 8 ++++----
 libmsi/update.c  | 2 +-
 libmsi/where.c   | 8 ++++----
 7 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/libmsi/alter.c b/libmsi/alter.c
index 0c7a21c..43cf2e7 100644
--- a/libmsi/alter.c
+++ b/libmsi/alter.c
@@ -126,6 +126,11 @@ static unsigned alter_add_column(LibmsiAlterView *av)
             return r;
         }
     }
+    if (colnum > MSI_MAX_COLUMNS)
+    {
+        columns->ops->delete(columns);
+        return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
+    }
     r = columns->ops->add_column(columns, av->colinfo->table,
                                  colnum, av->colinfo->column,
                                  av->colinfo->type, (av->hold == 1));
diff --git a/libmsi/create.c b/libmsi/create.c
index 19a4344..a824e99 100644
--- a/libmsi/create.c
+++ b/libmsi/create.c
@@ -129,6 +129,11 @@ G_GNUC_PURE
 static unsigned check_columns( const column_info *col_info )
 {
     const column_info *c1, *c2;
+    unsigned count = 0;
+
+    for( c1 = col_info; c1; c1 = c1->next )
+        if (++count > MSI_MAX_COLUMNS)
+            return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
 
     /* check for two columns with the same name */
     for( c1 = col_info; c1; c1 = c1->next )
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index 4821234..27ebdb0 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -441,6 +441,15 @@ static const char szStringPool[] = "_StringPool";
 static const char szName[] = "Name";
 static const char szData[] = "Data";
 
+/* a table has at most this many columns */
+#define MSI_MAX_COLUMNS 32
+
+/* mask with one bit for each of the columns of a table */
+static inline unsigned msi_column_mask( unsigned cols )
+{
+    return cols < 32 ? (1u << cols) - 1 : ~0u;
+}
+
 /* memory allocation macro functions */
 
 static void *msi_alloc( size_t len ) G_GNUC_ALLOC_SIZE(1);
diff --git a/libmsi/select.c b/libmsi/select.c
index c4ab6fd..d8559cf 100644
--- a/libmsi/select.c
+++ b/libmsi/select.c
@@ -106,7 +106,7 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<sv->num_cols) )
+    if ( mask & ~msi_column_mask(sv->num_cols) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* find the number of columns in the table below */
@@ -125,7 +125,7 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
         r = _libmsi_record_copy_field( rec, i+1, expanded, sv->cols[ i ] );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
-        expanded_mask |= (1<<(sv->cols[i]-1));
+        expanded_mask |= (1u<<(sv->cols[i]-1));
     }
 
     /* set the row in the underlying table */
diff --git a/libmsi/table.c b/libmsi/table.c
index 522688f..93e4748 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1318,7 +1318,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<tv->num_cols) )
+    if ( mask & ~msi_column_mask(tv->num_cols) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     for ( i = 0; i < tv->num_cols; i++ )
@@ -1326,7 +1326,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         bool persistent;
 
         /* only update the fields specified in the mask */
-        if ( !(mask&(1<<i)) )
+        if ( !(mask&(1u<<i)) )
             continue;
 
         persistent = (tv->table->persistent != LIBMSI_CONDITION_FALSE) &&
@@ -1659,7 +1659,7 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
-    return table_view_set_row( view, row, rec, (1<<tv->num_cols) - 1 );
+    return table_view_set_row( view, row, rec, msi_column_mask(tv->num_cols) );
 }
 
 static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
@@ -2512,7 +2512,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                 else if (mask & 1)
                 {
                     TRACE("modifying full row [%d]:\n", row);
-                    r = table_view_set_row( &tv->view, row, rec, (1 << tv->num_cols) - 1 );
+                    r = table_view_set_row( &tv->view, row, rec, msi_column_mask(tv->num_cols) );
                     if (r != LIBMSI_RESULT_SUCCESS)
                         g_warning("failed to modify row %u\n", r);
                 }
diff --git a/libmsi/update.c b/libmsi/update.c
index 39749e1..d509acf 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -107,7 +107,7 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     for ( i=0; i<row_count; i++ )
     {
-        r = wv->ops->set_row( wv, i, values, (1 << col_count) - 1 );
+        r = wv->ops->set_row( wv, i, values, msi_column_mask(col_count) );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
     }
diff --git a/libmsi/where.c b/libmsi/where.c
index 8e6d9a4..c556f01 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -280,7 +280,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    if (mask >= 1 << wv->col_count)
+    if (mask & ~msi_column_mask(wv->col_count))
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     do
@@ -288,7 +288,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         for (i = 0; i < table->col_count; i++) {
             unsigned type;
 
-            if (!(mask_copy & (1 << i)))
+            if (!(mask_copy & (1u << i)))
                 continue;
             r = table->view->ops->get_column_info(table->view, i + 1, NULL,
                                             &type, NULL, NULL );
@@ -297,7 +297,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             if (type & MSITYPE_KEY)
                 return LIBMSI_RESULT_FUNCTION_FAILED;
         }
-        mask_copy >>= table->col_count;
+        mask_copy = table->col_count < 32 ? mask_copy >> table->col_count : 0;
     }
     while (mask_copy && (table = table->next));
 
@@ -307,7 +307,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     {
         const unsigned col_count = table->col_count;
         LibmsiRecord *reduced;
-        unsigned reduced_mask = (mask >> offset) & ((1 << col_count) - 1);
+        unsigned reduced_mask = (offset < 32 ? mask >> offset : 0) & msi_column_mask(col_count);
 
         if (!reduced_mask)
         {
-- 
2.43.0


From be38ded196b89ee7da3732b5d95193bb19d61926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 007/122] fix: a refused INSERT or UPDATE leaves the table as
 it was

Integers out of range (-32768 in a 16 bit column would be stored as NULL) and
values that can't be stored were only noticed after the row had been partly
written. An UPDATE without WHERE could also change key columns, and any UPDATE
could store NULL in a column that does not allow it.
---
 libmsi/table.c  | 55 ++++++++++++++++++++++++++++++++++++++++++++++---
 libmsi/update.c | 27 ++++++++++++++++++++++++
 2 files changed, 79 insertions(+), 3 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 93e4748..45d0a84 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1294,9 +1294,10 @@ static unsigned get_table_value_from_record( LibmsiTableView *tv, LibmsiRecord *
     else if ( bytes_per_column( tv->db, &columninfo, LONG_STR_BYTES ) == 2 )
     {
         *pvalue = 0x8000 + libmsi_record_get_int( rec, iField );
-        if ( *pvalue & 0xffff0000 )
+        /* 0 stands for NULL */
+        if ( *pvalue == 0 || (*pvalue & 0xffff0000) )
         {
-            g_critical("field %u value %d out of range\n", iField, *pvalue - 0x8000);
+            g_warning("field %u value %d out of range\n", iField, *pvalue - 0x8000);
             return LIBMSI_RESULT_FUNCTION_FAILED;
         }
     }
@@ -1304,6 +1305,41 @@ static unsigned get_table_value_from_record( LibmsiTableView *tv, LibmsiRecord *
     {
         int ival = libmsi_record_get_int( rec, iField );
         *pvalue = ival ^ 0x80000000;
+        if ( *pvalue == 0 )
+        {
+            g_warning("field %u is no integer\n", iField);
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+        }
+    }
+
+    return LIBMSI_RESULT_SUCCESS;
+}
+
+/* check that the fields in the mask can be stored, before storing any of them */
+static unsigned table_validate_fields( LibmsiTableView *tv, LibmsiRecord *rec, unsigned mask )
+{
+    unsigned i, val, r;
+
+    for ( i = 0; i < tv->num_cols; i++ )
+    {
+        if ( !(mask & (1u<<i)) || libmsi_record_is_null( rec, i + 1 ) )
+            continue;
+
+        if ( MSITYPE_IS_BINARY(tv->columns[i].type) )
+        {
+            GsfInput *stm;
+
+            r = _libmsi_record_get_gsf_input( rec, i + 1, &stm );
+            if ( r != LIBMSI_RESULT_SUCCESS )
+                return r;
+            g_object_unref(G_OBJECT(stm));
+        }
+        else if ( !(tv->columns[i].type & MSITYPE_STRING) )
+        {
+            r = get_table_value_from_record( tv, rec, i + 1, &val );
+            if ( r != LIBMSI_RESULT_SUCCESS )
+                return r;
+        }
     }
 
     return LIBMSI_RESULT_SUCCESS;
@@ -1321,6 +1357,10 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     if ( mask & ~msi_column_mask(tv->num_cols) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
+    r = table_validate_fields( tv, rec, mask );
+    if ( r != LIBMSI_RESULT_SUCCESS )
+        return r;
+
     for ( i = 0; i < tv->num_cols; i++ )
     {
         bool persistent;
@@ -1629,6 +1669,8 @@ static int find_insert_index( LibmsiTableView *tv, LibmsiRecord *rec )
     return high + 1;
 }
 
+static unsigned table_view_delete_row( LibmsiView *view, unsigned row );
+
 static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
@@ -1636,6 +1678,10 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     TRACE("%p %p %s\n", tv, rec, temporary ? "true" : "false" );
 
+    r = table_validate_fields( tv, rec, msi_column_mask(tv->num_cols) );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        return r;
+
     /* check that the key is unique - can we find a matching row? */
     r = table_validate_new( tv, rec, NULL );
     if( r != LIBMSI_RESULT_SUCCESS )
@@ -1659,7 +1705,10 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
-    return table_view_set_row( view, row, rec, msi_column_mask(tv->num_cols) );
+    r = table_view_set_row( view, row, rec, msi_column_mask(tv->num_cols) );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        table_view_delete_row( view, row );
+    return r;
 }
 
 static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
diff --git a/libmsi/update.c b/libmsi/update.c
index d509acf..d312893 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -47,6 +47,26 @@ static unsigned update_view_fetch_int( LibmsiView *view, unsigned row, unsigned
     return LIBMSI_RESULT_FUNCTION_FAILED;
 }
 
+/* keys can't be updated, and only nullable columns can be set to NULL */
+static unsigned check_values( LibmsiView *wv, LibmsiRecord *values, unsigned col_count )
+{
+    unsigned i, r, type;
+
+    for ( i=1; i<=col_count; i++ )
+    {
+        r = wv->ops->get_column_info( wv, i, NULL, &type, NULL, NULL );
+        if ( r != LIBMSI_RESULT_SUCCESS )
+            return r;
+        if ( type & MSITYPE_KEY )
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+        if ( !(type & MSITYPE_NULLABLE) && !MSITYPE_IS_BINARY(type) &&
+             libmsi_record_is_null( values, i ) )
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+    }
+
+    return LIBMSI_RESULT_SUCCESS;
+}
+
 static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
 {
     LibmsiUpdateView *uv = (LibmsiUpdateView*)view;
@@ -105,6 +125,13 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
         goto done;
     }
 
+    if ( row_count )
+    {
+        r = check_values( wv, values, col_count );
+        if ( r != LIBMSI_RESULT_SUCCESS )
+            goto done;
+    }
+
     for ( i=0; i<row_count; i++ )
     {
         r = wv->ops->set_row( wv, i, values, msi_column_mask(col_count) );
-- 
2.43.0


From 898e3d4aeeadc2c10780dfc0a4fc1a6a52227d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 008/122] fix: replace the database file on commit only, and
 only by a complete one

Sessions opened without TRANSACT or with CREATE wrote over the database file
and removed it when closed without a commit, a failed open removed the output
file, commit ignored write and rename errors and removed the old file before
renaming the new one over it, and a failed commit left the session unusable.
Also set the error when opening fails.
---
 libmsi/libmsi-database.c | 206 +++++++++++++++++++++++++--------------
 libmsi/msipriv.h         |   5 +-
 libmsi/table.c           |   6 +-
 3 files changed, 137 insertions(+), 80 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e0c68cc..2c6590a 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -122,7 +122,7 @@ libmsi_database_finalize (GObject *object)
 {
     LibmsiDatabase *self = LIBMSI_DATABASE (object);
 
-    _libmsi_database_close (self, false);
+    _libmsi_database_close (self);
     free_cached_tables (self);
     free_transforms (self);
 
@@ -573,10 +573,65 @@ void append_storage_to_db( LibmsiDatabase *db, GsfInfile *stg )
 #endif
 }
 
-LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
+/* Close the output file.  It is complete only if this succeeds. */
+static unsigned close_outfile(LibmsiDatabase *db)
 {
-    TRACE("%p %d\n", db, committed);
+    unsigned r = LIBMSI_RESULT_SUCCESS;
+
+    if (!gsf_output_close(GSF_OUTPUT(db->outfile)) ||
+        gsf_output_error(GSF_OUTPUT(db->outfile)) ||
+        gsf_output_error(db->outsink))
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+
+    g_object_unref(G_OBJECT(db->outfile));
+    db->outfile = NULL;
+    g_object_unref(G_OBJECT(db->outsink));
+    db->outsink = NULL;
+    return r;
+}
+
+/* Drop what was written to the output file so far. */
+static void abort_transaction(LibmsiDatabase *db)
+{
+    if (db->outfile)
+        close_outfile(db);
+
+    if (db->tmppath)
+    {
+        unlink(db->tmppath);
+        g_free(db->tmppath);
+        db->tmppath = NULL;
+    }
+}
+
+/* Put the complete output file in the place of the database file. */
+static unsigned finish_transaction(LibmsiDatabase *db)
+{
+    unsigned r;
+
+    r = close_outfile(db);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        return r;
+
+    if (rename(db->tmppath, db->outpath ? db->outpath : db->path) != 0)
+    {
+        g_warning("rename failed for %s\n", debugstr_a(db->tmppath));
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+    }
+
+    g_free(db->tmppath);
+    db->tmppath = NULL;
+    if (db->outpath)
+    {
+        g_free(db->path);
+        db->path = db->outpath;
+        db->outpath = NULL;
+    }
+    return LIBMSI_RESULT_SUCCESS;
+}
 
+static void free_contents(LibmsiDatabase *db)
+{
     if ( db->strings )
     {
         msi_destroy_stringtable( db->strings);
@@ -589,93 +644,72 @@ LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
         db->infile = NULL;
     }
 
-    if ( db->outfile )
-    {
-        gsf_output_close(GSF_OUTPUT(db->outfile));
-        g_object_unref(G_OBJECT(db->outfile));
-        db->outfile = NULL;
-    }
     free_streams( db );
     free_storages( db );
+}
 
-    if (db->outpath) {
-        if (!committed) {
-            unlink( db->outpath );
-            msi_free( db->outpath );
-        } else if (db->rename_outpath) {
-            unlink(db->path);
-            rename(db->outpath, db->path);
-            msi_free( db->outpath );
-        } else {
-            msi_free( db->path );
-            db->path = db->outpath;
-        }
-    }
+LibmsiResult _libmsi_database_close(LibmsiDatabase *db)
+{
+    TRACE("%p\n", db);
+
+    free_contents( db );
+
+    /* nothing was committed to the separate output file */
+    if ( db->outpath && db->tmppath )
+        unlink( db->outpath );
+
+    abort_transaction( db );
+
+    g_free( db->outpath );
     db->outpath = NULL;
     return LIBMSI_RESULT_SUCCESS;
 }
 
 LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db)
 {
-    unsigned ret = LIBMSI_RESULT_SUCCESS;
     GsfOutput *out;
-    GsfOutfile *stg = NULL;
-    char *tmpfile = NULL;
-    char path[PATH_MAX];
+    GsfOutfile *stg;
 
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_SUCCESS;
 
-    db->rename_outpath = false;
-    if( !db->outpath )
-    {
-        strcpy( path, db->path );
-        if (db->flags & LIBMSI_DB_FLAGS_TRANSACT)
-	{
-            strcat( path, ".tmp" );
-            db->rename_outpath = true;
-	}
-        db->outpath = strdup(path);
-    }
+    /* the new file takes the place of the database file on commit only */
+    db->tmppath = g_strconcat(db->outpath ? db->outpath : db->path, ".tmp", NULL);
 
-    TRACE("%p %s\n", db, db->outpath);
+    TRACE("%p %s\n", db, db->tmppath);
 
-    out = gsf_output_stdio_new(db->outpath, NULL);
+    out = gsf_output_stdio_new(db->tmppath, NULL);
     if (!out)
     {
-        g_warning("open file failed for %s\n", debugstr_a(db->outpath));
-        return LIBMSI_RESULT_OPEN_FAILED;
+        g_warning("open file failed for %s\n", debugstr_a(db->tmppath));
+        goto err;
     }
     stg = gsf_outfile_msole_new(out);
-    g_object_unref(G_OBJECT(out));
     if (!stg)
     {
-        g_warning("open failed for %s\n", debugstr_a(db->outpath));
-        return LIBMSI_RESULT_OPEN_FAILED;
+        g_warning("open failed for %s\n", debugstr_a(db->tmppath));
+        g_object_unref(G_OBJECT(out));
+        goto err;
     }
 
+    db->outfile = stg;
+    db->outsink = out;
+
     if (!gsf_outfile_msole_set_class_id(GSF_OUTFILE_MSOLE(stg),
                                         db->flags & LIBMSI_DB_FLAGS_PATCH ?
                                         clsid_msi_patch : clsid_msi_database ))
     {
         g_warning("set guid failed\n");
-        ret = LIBMSI_RESULT_FUNCTION_FAILED;
-        goto end;
+        abort_transaction(db);
+        return LIBMSI_RESULT_FUNCTION_FAILED;
     }
 
-    db->outfile = stg;
-    g_object_ref(G_OBJECT(db->outfile));
+    return LIBMSI_RESULT_SUCCESS;
 
-end:
-    if (ret) {
-        if (db->outfile)
-            g_object_unref(G_OBJECT(db->outfile));
-        db->outfile = NULL;
-    }
-    if (stg)
-        g_object_unref(G_OBJECT(stg));
-    msi_free(tmpfile);
-    return ret;
+err:
+    g_free(db->tmppath);
+    db->tmppath = NULL;
+    return LIBMSI_RESULT_OPEN_FAILED;
 }
 
 static char *msi_read_text_archive(const char *path, unsigned *len)
@@ -2153,10 +2187,14 @@ static void cache_infile_structure( LibmsiDatabase *db )
     }
 }
 
+/* read the database file in the place of the current contents, which are kept
+ * if that fails */
 LibmsiResult _libmsi_database_open(LibmsiDatabase *db)
 {
     GsfInput *in;
     GsfInfile *stg;
+    string_table *strings;
+    unsigned bytes_per_strref;
     uint8_t uuid[16];
     unsigned ret = LIBMSI_RESULT_OPEN_FAILED;
 
@@ -2198,22 +2236,22 @@ LibmsiResult _libmsi_database_open(LibmsiDatabase *db)
         goto end;
     }
 
+    strings = msi_load_string_table( stg, &bytes_per_strref );
+    if( !strings )
+        goto end;
+
+    free_contents( db );
+    free_cached_tables( db );
+
     db->infile = stg;
     g_object_ref(G_OBJECT(db->infile));
+    db->strings = strings;
+    db->bytes_per_strref = bytes_per_strref;
 
     cache_infile_structure( db );
 
-    db->strings = msi_load_string_table( db->infile, &db->bytes_per_strref );
-    if( !db->strings )
-        goto end;
-
     ret = LIBMSI_RESULT_SUCCESS;
 end:
-    if (ret) {
-        if (db->infile)
-            g_object_unref(G_OBJECT(db->infile));
-        db->infile = NULL;
-    }
     g_object_unref(G_OBJECT(stg));
     return ret;
 }
@@ -2387,43 +2425,60 @@ libmsi_database_commit (LibmsiDatabase *db, GError **error)
 
     /* FIXME: lock the database */
 
+    if (!db->outfile) {
+        r = _libmsi_database_start_transaction (db);
+        if (r != LIBMSI_RESULT_SUCCESS) {
+            g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                         "failed to create output file r=%08x\n", r);
+            goto end;
+        }
+    }
+
     r = msi_save_string_table (db->strings, db, &bytes_per_strref);
     if (r != LIBMSI_RESULT_SUCCESS) {
         g_set_error (error, LIBMSI_RESULT_ERROR, r,
                      "failed to save string table r=%08x\n", r);
-        goto end;
+        goto restart;
     }
 
     r = msi_enum_db_storages (db, commit_storage, db);
     if (r != LIBMSI_RESULT_SUCCESS) {
         g_set_error (error, LIBMSI_RESULT_ERROR, r,
                      "failed to save storages r=%08x\n", r);
-        goto end;
+        goto restart;
     }
 
     r = msi_enum_db_streams (db, commit_stream, db);
     if (r != LIBMSI_RESULT_SUCCESS) {
         g_set_error (error, LIBMSI_RESULT_ERROR, r,
                      "failed to save streams r=%08x\n", r);
-        goto end;
+        goto restart;
     }
 
     r = _libmsi_database_commit_tables (db, bytes_per_strref);
     if (r != LIBMSI_RESULT_SUCCESS) {
         g_set_error (error, LIBMSI_RESULT_ERROR, r,
                      "failed to save tables r=%08x\n", r);
-        goto end;
+        goto restart;
     }
 
-    db->bytes_per_strref = bytes_per_strref;
+    r = finish_transaction (db);
+    if (r != LIBMSI_RESULT_SUCCESS) {
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "failed to write the database file r=%08x\n", r);
+        goto restart;
+    }
 
     /* FIXME: unlock the database */
 
-    _libmsi_database_close(db, true);
     db->flags &= ~LIBMSI_DB_FLAGS_CREATE;
     db->flags |= LIBMSI_DB_FLAGS_TRANSACT;
     _libmsi_database_open(db);
-    _libmsi_database_start_transaction(db);
+
+restart:
+    /* the next commit writes to a file of its own */
+    abort_transaction (db);
+    _libmsi_database_start_transaction (db);
 
 end:
     g_object_unref(db);
@@ -2621,6 +2676,9 @@ libmsi_database_new (const gchar *path,
                          NULL);
 
     if (!init (self, error)) {
+        if (error && !*error)
+            g_set_error (error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_OPEN_FAILED,
+                         "failed to open %s", path);
         g_object_unref (self);
         return NULL;
     }
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index 27ebdb0..4515348 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -91,11 +91,12 @@ struct _LibmsiDatabase
 
     GsfInfile *infile;
     GsfOutfile *outfile;
+    GsfOutput *outsink;
     string_table *strings;
     unsigned bytes_per_strref;
     char *path;
     char *outpath;
-    bool rename_outpath;
+    char *tmppath;
     guint flags;
     unsigned media_transform_offset;
     unsigned media_transform_disk_id;
@@ -395,7 +396,7 @@ extern char *decode_streamname(const char *in);
 /* database internals */
 extern LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db);
 extern LibmsiResult _libmsi_database_open(LibmsiDatabase *db);
-extern LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed);
+extern LibmsiResult _libmsi_database_close(LibmsiDatabase *db);
 unsigned msi_create_stream( LibmsiDatabase *db, const char *stname, GsfInput *stm );
 extern unsigned msi_get_raw_stream( LibmsiDatabase *, const char *, GsfInput **);
 void msi_destroy_stream( LibmsiDatabase *, const char * );
diff --git a/libmsi/table.c b/libmsi/table.c
index 45d0a84..f603e38 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2087,7 +2087,7 @@ unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **v
 unsigned _libmsi_database_commit_tables( LibmsiDatabase *db, unsigned bytes_per_strref )
 {
     unsigned r = LIBMSI_RESULT_SUCCESS;
-    LibmsiTable *table, *table2;
+    LibmsiTable *table;
     LibmsiTable *t;
 
     TRACE("%p\n",db);
@@ -2095,7 +2095,7 @@ unsigned _libmsi_database_commit_tables( LibmsiDatabase *db, unsigned bytes_per_
     /* Ensure the Tables stream is written.  */
     get_table( db, szTables, &t );
 
-    LIST_FOR_EACH_ENTRY_SAFE( table, table2, &db->tables, LibmsiTable, entry )
+    LIST_FOR_EACH_ENTRY( table, &db->tables, LibmsiTable, entry )
     {
         r = get_table( db, table->name, &t );
         if( r != LIBMSI_RESULT_SUCCESS )
@@ -2111,8 +2111,6 @@ unsigned _libmsi_database_commit_tables( LibmsiDatabase *db, unsigned bytes_per_
                   debugstr_a(table->name), r);
             return r;
         }
-        list_remove(&table->entry);
-        free_table(table);
     }
 
     return r;
-- 
2.43.0


From 51c8efa44f1547c011d93fb9e3719a2a7fa1c56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 009/122] fix: refuse invalid rows in _Streams and _Storages
 without crashing

A missing name crashed, invalid storage data was read from uninitialized
memory or ignored, refused rows stayed in the view and a new name given by an
UPDATE was silently ignored.
---
 libmsi/libmsi-database.c |  2 +-
 libmsi/storages.c        | 40 +++++++++++++++++++++++++++-------------
 libmsi/streams.c         | 26 +++++++++++++++++++++-----
 3 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 2c6590a..d1c45a2 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -248,7 +248,7 @@ unsigned msi_create_storage( LibmsiDatabase *db, const char *stname, GsfInput *s
     LibmsiStorage *storage;
     GsfInfile *origstg = NULL;
     bool found = false;
-    unsigned r;
+    unsigned r = LIBMSI_RESULT_INVALID_DATA;
 
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_ACCESS_DENIED;
diff --git a/libmsi/storages.c b/libmsi/storages.c
index 3914305..a4dec10 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -49,8 +49,9 @@ static bool storages_set_table_size(LibmsiStorageView *sv, unsigned size)
 {
     if (size >= sv->max_storages)
     {
+        sv->storages = msi_realloc_zero(sv->storages, sv->max_storages * sizeof(STORAGE *),
+                                        sv->max_storages * 2 * sizeof(STORAGE *));
         sv->max_storages *= 2;
-        sv->storages = msi_realloc(sv->storages, sv->max_storages * sizeof(STORAGE *));
         if (!sv->storages)
             return false;
     }
@@ -112,7 +113,6 @@ static unsigned storages_view_get_row( LibmsiView *view, unsigned row, LibmsiRec
 static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiRecord *rec, unsigned mask)
 {
     LibmsiStorageView *sv = (LibmsiStorageView *)view;
-    STORAGE *storage;
     GsfInput *stm;
     char *name = NULL;
     unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
@@ -129,26 +129,34 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
     if (sv->storages[row]) {
         if (mask & 1) {
             g_warning("FIXME: renaming storage via UPDATE on _Storages table\n");
+            r = LIBMSI_RESULT_CALL_NOT_IMPLEMENTED;
             goto done;
         }
 
-        storage = sv->storages[row];
-        name = strdup(msi_string_lookup_id(sv->db->strings, storage->str_index));
+        name = g_strdup(msi_string_lookup_id(sv->db->strings, sv->storages[row]->str_index));
     } else {
-        name = strdup(_libmsi_record_get_string_raw(rec, 1));
+        name = g_strdup(_libmsi_record_get_string_raw(rec, 1));
     }
     if (!name)
     {
-        r = LIBMSI_RESULT_OUTOFMEMORY;
+        g_warning("failed to retrieve storage name\n");
+        r = LIBMSI_RESULT_INVALID_DATA;
         goto done;
     }
 
-    msi_create_storage(sv->db, name, stm);
-    storage = create_storage(sv, name);
-    if (!storage)
-        r = LIBMSI_RESULT_FUNCTION_FAILED;
+    r = msi_create_storage(sv->db, name, stm);
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        g_warning("failed to create storage: %08x\n", r);
+        goto done;
+    }
 
-    sv->storages[row] = storage;
+    if (!sv->storages[row])
+    {
+        sv->storages[row] = create_storage(sv, name);
+        if (!sv->storages[row])
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+    }
 
 done:
     msi_free(name);
@@ -160,6 +168,7 @@ done:
 static unsigned storages_view_insert_row(LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary)
 {
     LibmsiStorageView *sv = (LibmsiStorageView *)view;
+    unsigned r;
 
     if (!storages_set_table_size(sv, ++sv->num_rows))
         return LIBMSI_RESULT_FUNCTION_FAILED;
@@ -169,7 +178,11 @@ static unsigned storages_view_insert_row(LibmsiView *view, LibmsiRecord *rec, un
 
     /* FIXME have to readjust rows */
 
-    return storages_view_set_row(view, row, rec, 0);
+    r = storages_view_set_row(view, row, rec, 0);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        sv->num_rows--;
+
+    return r;
 }
 
 static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
@@ -196,6 +209,7 @@ static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
         sv->storages[i - 1] = sv->storages[i];
     }
     sv->num_rows--;
+    sv->storages[sv->num_rows] = NULL;
 
     return LIBMSI_RESULT_SUCCESS;
 }
@@ -293,7 +307,7 @@ static unsigned storages_view_find_matching_rows(LibmsiView *view, unsigned col,
     }
 
     *handle = (MSIITERHANDLE)(uintptr_t)++index;
-    if (index >= sv->num_rows)
+    if (index > sv->num_rows)
         return NO_MORE_ITEMS;
 
     return LIBMSI_RESULT_SUCCESS;
diff --git a/libmsi/streams.c b/libmsi/streams.c
index 025e53c..82568df 100644
--- a/libmsi/streams.c
+++ b/libmsi/streams.c
@@ -144,16 +144,18 @@ static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecor
     if (sv->streams[row]) {
         if (mask & 1) {
             g_warning("FIXME: renaming stream via UPDATE on _Streams table");
+            r = LIBMSI_RESULT_CALL_NOT_IMPLEMENTED;
             goto done;
         }
 
         stream = sv->streams[row];
         name = strdup(msi_string_lookup_id(sv->db->strings, stream->str_index));
     } else {
-        name = strdup(_libmsi_record_get_string_raw(rec, 1));
+        name = g_strdup(_libmsi_record_get_string_raw(rec, 1));
         if (!name)
         {
             g_warning("failed to retrieve stream name\n");
+            r = LIBMSI_RESULT_INVALID_DATA;
             goto done;
         }
 
@@ -167,8 +169,11 @@ static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecor
     if (r != LIBMSI_RESULT_SUCCESS)
     {
         g_warning("failed to create stream: %08x\n", r);
-        g_object_unref(G_OBJECT(stream->stream));
-        msi_free(stream);
+        if (!sv->streams[row])
+        {
+            g_object_unref(G_OBJECT(stream->stream));
+            msi_free(stream);
+        }
         goto done;
     }
 
@@ -185,7 +190,7 @@ done:
 static unsigned streams_view_insert_row(LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary)
 {
     LibmsiStreamsView *sv = (LibmsiStreamsView *)view;
-    unsigned i;
+    unsigned i, r;
 
     TRACE("(%p, %p, %d, %d)\n", view, rec, row, temporary);
 
@@ -200,8 +205,18 @@ static unsigned streams_view_insert_row(LibmsiView *view, LibmsiRecord *rec, uns
     {
         sv->streams[i] = sv->streams[i - 1];
     }
+    sv->streams[row] = NULL;
 
-    return streams_view_set_row(view, row, rec, 0);
+    r = streams_view_set_row(view, row, rec, 0);
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        sv->num_rows--;
+        for (i = row; i < sv->num_rows; i++)
+            sv->streams[i] = sv->streams[i + 1];
+        sv->streams[sv->num_rows] = NULL;
+    }
+
+    return r;
 }
 
 static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
@@ -230,6 +245,7 @@ static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
         sv->streams[i - 1] = sv->streams[i];
     }
     sv->num_rows--;
+    sv->streams[sv->num_rows] = NULL;
 
     return LIBMSI_RESULT_SUCCESS;
 }
-- 
2.43.0


From 92ca6be12bf2cf378a8ecdbbd7276035be7a99a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 010/122] fix: read a NULL binary field as NULL

The bytes of a former row with the same key, or from before an UPDATE to NULL,
were returned.
---
 libmsi/libmsi-query.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index 759613c..8cb9d18 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -315,6 +315,11 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
         {
             GsfInput *stm = NULL;
 
+            /* a stream of that name may be left from a former row */
+            ret = view->ops->fetch_int(view, row, i, &ival);
+            if (ret == LIBMSI_RESULT_SUCCESS && !ival)
+                continue;
+
             ret = view->ops->fetch_stream(view, row, i, &stm);
             if ((ret == LIBMSI_RESULT_SUCCESS) && stm)
             {
-- 
2.43.0


From 3ca8c6cae23f9802ed9ea38cd8ac91f642093418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 011/122] fix: keep a string that is used more than 65535 times

The reference counts of the string table are 16 bits wide.  A count that
wrapped to zero made the string look unused, so that the next string took
its place, and a commit left it out of the string pool.
---
 libmsi/string.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 0197686..ca74d63 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -221,6 +221,12 @@ static void set_st_entry( string_table *st, unsigned n, char *str, uint16_t refc
         st->freeslot = n + 1;
 }
 
+static void add_refs( uint16_t *count, uint16_t refs )
+{
+    /* a count that wrapped to zero would free a string that is in use */
+    *count = MIN( (unsigned)*count + refs, 0xffff );
+}
+
 static unsigned _libmsi_id_from_string( const string_table *st, const char *buffer, unsigned *id )
 {
     size_t sz;
@@ -272,9 +278,9 @@ static int msi_addstring( string_table *st, unsigned n, const char *data, int le
         if( LIBMSI_RESULT_SUCCESS == _libmsi_id_from_string( st, data, &n ) )
         {
             if (persistence == StringPersistent)
-                st->strings[n].persistent_refcount += refcount;
+                add_refs( &st->strings[n].persistent_refcount, refcount );
             else
-                st->strings[n].nonpersistent_refcount += refcount;
+                add_refs( &st->strings[n].nonpersistent_refcount, refcount );
             return n;
         }
         n = st_find_free_entry( st );
@@ -316,9 +322,9 @@ int _libmsi_add_string( string_table *st, const char *data, int len, uint16_t re
     if( _libmsi_id_from_string_utf8( st, data, &n ) == LIBMSI_RESULT_SUCCESS )
     {
         if (persistence == StringPersistent)
-            st->strings[n].persistent_refcount += refcount;
+            add_refs( &st->strings[n].persistent_refcount, refcount );
         else
-            st->strings[n].nonpersistent_refcount += refcount;
+            add_refs( &st->strings[n].nonpersistent_refcount, refcount );
         return n;
     }
 
-- 
2.43.0


From deed1241a014aba53bb558c2d903b2bf781560fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 012/122] fix: save strings of 64K and more so that they can be
 loaded

The loader expects an entry with the reference count but no length, and
the 32 bit length in the next entry.
---
 libmsi/string.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index ca74d63..ca8fa72 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -541,9 +541,8 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
         }
 
         /*
-         * If a string is over 64k, the previous string entry is made null
-         * and the high word of the length is inserted in the null string's
-         * reference count field.
+         * If a string is over 64k, its entry has no length, and the entry
+         * that follows holds the length instead.
          */
         if (GUINT16_FROM_LE(pool[i*2]) == 0)
         {
@@ -654,18 +653,25 @@ unsigned msi_save_string_table( const string_table *st, LibmsiDatabase *db, unsi
 
         if (sz >= 0x10000)
         {
-            /* Write a dummy entry, with the high part of the length
-             * in the reference count.  */
+            /* Write an entry without a length, followed by the whole
+             * length.  */
             pool[ i*4 ] = 0;
             pool[ i*4 + 1 ] = 0;
-            pool[ i*4 + 2 ] = (sz >> 16);
-            pool[ i*4 + 3 ] = (sz >> 24);
+            pool[ i*4 + 2 ] = st->strings[n].persistent_refcount;
+            pool[ i*4 + 3 ] = st->strings[n].persistent_refcount >> 8;
             i++;
+            pool[ i*4 ]     = sz;
+            pool[ i*4 + 1 ] = sz >> 8;
+            pool[ i*4 + 2 ] = sz >> 16;
+            pool[ i*4 + 3 ] = sz >> 24;
+        }
+        else
+        {
+            pool[ i*4 ]     = sz;
+            pool[ i*4 + 1 ] = sz >> 8;
+            pool[ i*4 + 2 ] = st->strings[n].persistent_refcount;
+            pool[ i*4 + 3 ] = st->strings[n].persistent_refcount >> 8;
         }
-        pool[ i*4 ]     = sz;
-        pool[ i*4 + 1 ] = sz >> 8;
-        pool[ i*4 + 2 ] = st->strings[n].persistent_refcount;
-        pool[ i*4 + 3 ] = st->strings[n].persistent_refcount >> 8;
         i++;
         used += sz;
         if( used > datasize  )
-- 
2.43.0


From 42f47bc0295d4c6ad470fae7cb29a635d85aa969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 013/122] fix: fail to commit a string that the code page
 cannot represent

The failed conversion was copied from a NULL pointer.
---
 libmsi/string.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index ca8fa72..8f20b9d 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -401,9 +401,12 @@ static unsigned _libmsi_string_id( const string_table *st, unsigned id, char *bu
     cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
     str = g_convert_with_iconv(str_utf8, -1, cpconv, NULL, &len, NULL);
     g_iconv_close(cpconv);
+    if( !str )
+        return LIBMSI_RESULT_INVALID_DATA;
     if( *sz < len )
     {
         *sz = len;
+        msi_free(str);
         return LIBMSI_RESULT_MORE_DATA;
     }
     *sz = len;
@@ -442,7 +445,7 @@ unsigned _libmsi_id_from_string_utf8( const string_table *st, const char *str, u
     return LIBMSI_RESULT_INVALID_PARAMETER;
 }
 
-static void string_totalsize( const string_table *st, unsigned *datasize, unsigned *poolsize )
+static unsigned string_totalsize( const string_table *st, unsigned *datasize, unsigned *poolsize )
 {
     unsigned i, holesize;
     size_t len;
@@ -471,7 +474,12 @@ static void string_totalsize( const string_table *st, unsigned *datasize, unsign
             cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
             str = g_convert_with_iconv( st->strings[i].str, -1, cpconv, NULL, &len, NULL);
             g_iconv_close(cpconv);
-	    msi_free(str);
+            if( !str )
+            {
+                g_warning("string %u cannot be represented in codepage %d\n", i, codepage);
+                return LIBMSI_RESULT_INVALID_DATA;
+            }
+            msi_free(str);
             (*datasize) += len;
             if (len>0xffff)
                 (*poolsize) += 4;
@@ -482,6 +490,7 @@ static void string_totalsize( const string_table *st, unsigned *datasize, unsign
             holesize += 4;
     }
     TRACE("data %u pool %u codepage %x\n", *datasize, *poolsize, st->codepage );
+    return LIBMSI_RESULT_SUCCESS;
 }
 
 string_table *msi_init_string_table( unsigned *bytes_per_strref )
@@ -590,7 +599,9 @@ unsigned msi_save_string_table( const string_table *st, LibmsiDatabase *db, unsi
     TRACE("\n");
 
     /* construct the new table in memory first */
-    string_totalsize( st, &datasize, &poolsize );
+    r = string_totalsize( st, &datasize, &poolsize );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        return r;
 
     TRACE("%u %u %u\n", st->maxcount, datasize, poolsize );
 
@@ -639,7 +650,7 @@ unsigned msi_save_string_table( const string_table *st, LibmsiDatabase *db, unsi
         if( r != LIBMSI_RESULT_SUCCESS )
         {
             g_critical("failed to fetch string\n");
-            sz = 0;
+            goto err;
         }
 
         if (sz == 0) {
-- 
2.43.0


From 1519de3d497c065a1881a24520bdd02e8d472269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 014/122] fix: do not take a table that cannot be read for an
 empty one

A commit that followed the failed read wrote the table without its rows.
---
 libmsi/table.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index f603e38..e0145e4 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -266,14 +266,17 @@ unsigned read_stream_data( GsfInfile *stg, const char *stname,
     TRACE("%s -> %s\n",debugstr_a(stname),debugstr_a(encname));
 
     if ( !stg )
-        return LIBMSI_RESULT_FUNCTION_FAILED;
+    {
+        msi_free(encname);
+        return LIBMSI_RESULT_NOT_FOUND;
+    }
 
     stm = gsf_infile_child_by_name(stg, encname );
     msi_free(encname);
     if( !stm )
     {
         TRACE("open stream failed - empty table?\n");
-        return ret;
+        return LIBMSI_RESULT_NOT_FOUND;
     }
 
     if( gsf_input_size(stm) >> 32 )
@@ -388,15 +391,17 @@ static unsigned msi_table_get_row_size( LibmsiDatabase *db, const LibmsiColumnIn
 static unsigned read_table_from_storage( LibmsiDatabase *db, LibmsiTable *t, GsfInfile *stg )
 {
     uint8_t *rawdata = NULL;
-    unsigned rawsize = 0, i, j, row_size, row_size_mem;
+    unsigned rawsize = 0, i, j, row_size, row_size_mem, r;
 
     TRACE("%s\n",debugstr_a(t->name));
 
     row_size = msi_table_get_row_size( db, t->colinfo, t->col_count, db->bytes_per_strref );
     row_size_mem = msi_table_get_row_size( db, t->colinfo, t->col_count, LONG_STR_BYTES );
 
-    /* if we can't read the table, just assume that it's empty */
-    read_stream_data( stg, t->name, &rawdata, &rawsize );
+    /* a table that has no stream is empty */
+    r = read_stream_data( stg, t->name, &rawdata, &rawsize );
+    if( r != LIBMSI_RESULT_SUCCESS && r != LIBMSI_RESULT_NOT_FOUND )
+        return r;
     if( !rawdata )
         return LIBMSI_RESULT_SUCCESS;
 
-- 
2.43.0


From f20d5ae388c50ef5ab6714cfa615b12a0ac7406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 015/122] fix: return a defined value for a missing summary
 property

---
 libmsi/libmsi-summary-info.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 2e7f513..c14f99c 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -743,7 +743,7 @@ libmsi_summary_info_get_int (LibmsiSummaryInfo *self, LibmsiProperty prop,
                              GError **error)
 {
     LibmsiPropertyType type;
-    gint val;
+    gint val = -1;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), -1);
     g_return_val_if_fail (!error || *error == NULL, -1);
@@ -768,7 +768,7 @@ libmsi_summary_info_get_filetime (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                   GError **error)
 {
     LibmsiPropertyType type;
-    guint64 val;
+    guint64 val = 0;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), 0);
     g_return_val_if_fail (!error || *error == NULL, 0);
@@ -793,7 +793,7 @@ libmsi_summary_info_get_string (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                 GError **error)
 {
     LibmsiPropertyType type;
-    const gchar *str;
+    const gchar *str = NULL;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), FALSE);
     g_return_val_if_fail (!error || *error == NULL, FALSE);
-- 
2.43.0


From 7ee0fd320899cd41bf96b69563aeb5be78cb658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 016/122] fix: skipping in a stream reported failure on success

---
 libmsi/libmsi-istream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-istream.c b/libmsi/libmsi-istream.c
index e74e8fb..b612041 100644
--- a/libmsi/libmsi-istream.c
+++ b/libmsi/libmsi-istream.c
@@ -114,7 +114,7 @@ input_stream_skip (GInputStream *stream,
     LibmsiIStream *self = LIBMSI_ISTREAM (stream);
 
     count = MIN (count, gsf_input_remaining (self->input));
-    if (!gsf_input_seek (self->input, count, G_SEEK_CUR))
+    if (gsf_input_seek (self->input, count, G_SEEK_CUR))
         return -1;
 
     return count;
-- 
2.43.0


From 1155a8ed842f8ea25a78e979d3d18c7d33387ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 017/122] fix: find the tables that a transform changes

The marker in front of the name of a table stream is three bytes long in
UTF-8, so no table was found and no transform changed anything.  A file
that is no storage crashed.
---
 libmsi/libmsi-database.c | 5 +++++
 libmsi/table.c           | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index d1c45a2..ae1f00b 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2273,6 +2273,11 @@ unsigned _libmsi_database_apply_transform( LibmsiDatabase *db,
     }
     stg = gsf_infile_msole_new( in, NULL );
     g_object_unref(G_OBJECT(in));
+    if (!stg)
+    {
+        g_warning("transform %s is not a storage\n", debugstr_a(szTransformFile));
+        return LIBMSI_RESULT_OPEN_FAILED;
+    }
 
     if( !gsf_infile_msole_get_class_id (GSF_INFILE_MSOLE(stg), uuid))
     {
diff --git a/libmsi/table.c b/libmsi/table.c
index e0145e4..412bd3e 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2648,7 +2648,7 @@ unsigned msi_table_apply_transform( LibmsiDatabase *db, GsfInfile *stg )
 
         list_add_tail( &transforms, &transform->entry );
 
-        transform->name = strdup( name + 1 );
+        transform->name = strdup( name + 3 );
 
         if ( !strcmp( transform->name, szTables ) )
             tables = transform;
-- 
2.43.0


From 12f70f0e57006afd08c68b7eda4a91a5159dfd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 018/122] fix: re-executing a SELECT DISTINCT starts from no
 rows

---
 libmsi/distinct.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmsi/distinct.c b/libmsi/distinct.c
index 2d9aab9..cc813c0 100644
--- a/libmsi/distinct.c
+++ b/libmsi/distinct.c
@@ -118,6 +118,8 @@ static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
     if( r != LIBMSI_RESULT_SUCCESS )
         return r;
 
+    msi_free( dv->translation );
+    dv->row_count = 0;
     dv->translation = msi_alloc( r_count*sizeof(unsigned) );
     if( !dv->translation )
         return LIBMSI_RESULT_FUNCTION_FAILED;
-- 
2.43.0


From 307810c7ba60b70bbd4be13dcd6823cc67841dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 019/122] fix: return NULL when column or key information is
 refused

---
 libmsi/libmsi-database.c | 2 +-
 libmsi/libmsi-query.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index ae1f00b..e48298e 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2575,7 +2575,7 @@ libmsi_database_get_primary_keys (LibmsiDatabase *db,
                                   const char *table,
                                   GError **error)
 {
-    LibmsiRecord *rec;
+    LibmsiRecord *rec = NULL;
     unsigned r;
 
     TRACE("%p %s\n", db, debugstr_a(table));
diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index 8cb9d18..e65e32d 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -602,7 +602,7 @@ LibmsiResult _libmsi_query_get_column_info( LibmsiQuery *query, LibmsiColInfo in
 LibmsiRecord *
 libmsi_query_get_column_info (LibmsiQuery *query, LibmsiColInfo info, GError **error)
 {
-    LibmsiRecord *rec;
+    LibmsiRecord *rec = NULL;
     unsigned r;
 
     TRACE("%p %d\n", query, info);
-- 
2.43.0


From 9c9236efc6de08c805faf17e9a254491c96fe00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 020/122] fix: msibuild -s swallowed the option that follows it

---
 tools/msibuild.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index ef7c875..99fb382 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -298,7 +298,7 @@ int main(int argc, char *argv[])
                                   n > 3 ? argv[3] : NULL,
                                   n > 4 ? argv[4] : NULL, &error))
                 goto end;
-            argc -= n + 1, argv += n + 1;
+            argc -= n, argv += n;
             break;
         case 'i':
             do {
-- 
2.43.0


From e0594c497f94e24b2f2e0affbf1e0e70abe127a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 021/122] fix: msibuild looped forever on an unknown option or
 an incomplete -a

---
 tools/msibuild.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index 99fb382..ac59880 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -323,7 +323,11 @@ int main(int argc, char *argv[])
             argc--, argv++;
             break;
         case 'a':
-            if (argc < 3) break;
+            if (argc < 3)
+            {
+                show_usage();
+                return 1;
+            }
             if (!add_stream(argv[1], argv[2], &error))
                 goto end;
             argc -= 3, argv += 3;
@@ -331,7 +335,7 @@ int main(int argc, char *argv[])
         default:
             fprintf(stdout, "unknown option\n");
             show_usage();
-            break;
+            return 1;
         }
     }
 
-- 
2.43.0


From 6b37ae3623109b64b109eac2c272c70b5bc76036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 022/122] fix: refuse a statement that ends in a lone quote

The length of the empty text between the quotes wrapped.
---
 libmsi/sql-parser.y | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 7b8d912..33f351a 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -825,6 +825,10 @@ unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **
     const char *p = strdata->data;
     unsigned len = strdata->len;
 
+    /* a quote that ends the text has nothing to match */
+    if( len == 1 && ( p[0]=='`' || p[0]=='\'' ) )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     /* match quotes */
     if( ( (p[0]=='`') && (p[len-1]!='`') ) ||
         ( (p[0]=='\'') && (p[len-1]!='\'') ) )
-- 
2.43.0


From adfbc0fe0a0b665f5b823eacc0f9351c7e63493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 023/122] fix: temporary tables go away with their last FREE or
 DROP and permanent ones stay

A permanent table without rows was dropped from memory with the last
FREE, so that its deleted rows came back from the file.  A temporary
table kept its name in _Tables (or, with rows, itself), could not be
dropped, and lost its columns to ALTER TABLE ADD.  Built-in tables
crashed ALTER and DROP.
---
 libmsi/alter.c |  8 +++++
 libmsi/drop.c  |  2 +-
 libmsi/table.c | 83 ++++++++++++++++++++++++++++----------------------
 3 files changed, 56 insertions(+), 37 deletions(-)

diff --git a/libmsi/alter.c b/libmsi/alter.c
index 43cf2e7..f0a0b31 100644
--- a/libmsi/alter.c
+++ b/libmsi/alter.c
@@ -105,6 +105,10 @@ static unsigned alter_add_column(LibmsiAlterView *av)
     static const char query[] =
         "SELECT * FROM `_Columns` WHERE `Table`='%s' ORDER BY `Number`";
 
+    /* _Columns has no place for the columns of temporary and built-in tables */
+    if (_libmsi_database_is_table_persistent(av->db, av->colinfo->table) != LIBMSI_CONDITION_TRUE)
+        return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
+
     r = table_view_create(av->db, szColumns, &columns);
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
@@ -146,6 +150,10 @@ static unsigned alter_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     TRACE("%p %p\n", av, record);
 
+    /* tables like _Streams are not counted */
+    if (!av->table->ops->add_ref || !av->table->ops->release)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     if (av->hold == 1)
         av->table->ops->add_ref(av->table);
     else if (av->hold == -1)
diff --git a/libmsi/drop.c b/libmsi/drop.c
index 2fd2501..9cb759a 100644
--- a/libmsi/drop.c
+++ b/libmsi/drop.c
@@ -43,7 +43,7 @@ static unsigned drop_view_execute(LibmsiView *view, LibmsiRecord *record)
 
     TRACE("%p %p\n", dv, record);
 
-    if( !dv->table )
+    if( !dv->table || !dv->table->ops->drop )
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
     r = dv->table->ops->execute(dv->table, record);
diff --git a/libmsi/table.c b/libmsi/table.c
index 412bd3e..03da231 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1899,6 +1899,34 @@ done:
     return r;
 }
 
+/* removes a table's row from the _Tables table */
+static unsigned table_view_remove_table_name(LibmsiDatabase *db, const char *name)
+{
+    LibmsiView *tables = NULL;
+    LibmsiRecord *rec;
+    unsigned r, row;
+
+    rec = libmsi_record_new(1);
+    if (!rec)
+        return LIBMSI_RESULT_OUTOFMEMORY;
+
+    libmsi_record_set_string(rec, 1, name);
+
+    r = table_view_create(db, szTables, &tables);
+    if (r != LIBMSI_RESULT_SUCCESS) {
+        g_object_unref(rec);
+        return r;
+    }
+
+    r = msi_table_find_row((LibmsiTableView *)tables, rec, &row, NULL);
+    if (r == LIBMSI_RESULT_SUCCESS)
+        r = table_view_delete_row(tables, row);
+
+    g_object_unref(rec);
+    tables->ops->delete(tables);
+    return r;
+}
+
 static unsigned table_view_release(LibmsiView *view)
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
@@ -1923,17 +1951,21 @@ static unsigned table_view_release(LibmsiView *view)
     }
 
     ref = __sync_sub_and_fetch(&tv->table->ref_count, 1);
-    if (ref == 0)
-    {
-        if (!tv->table->row_count)
-        {
-            list_remove(&tv->table->entry);
-            free_table(tv->table);
-            table_view_delete(view);
-        }
-    }
+    if (ref != 0)
+        return ref;
+
+    /* only a temporary table goes away with its last reference */
+    if (tv->table->persistent != LIBMSI_CONDITION_FALSE)
+        return 1;
 
-    return ref;
+    r = table_view_remove_table_name(tv->db, tv->name);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        return 1;
+
+    list_remove(&tv->table->entry);
+    free_table(tv->table);
+    table_view_delete(view);
+    return 0;
 }
 
 static unsigned table_view_add_column(LibmsiView *view, const char *table, unsigned number,
@@ -1980,14 +2012,13 @@ done:
 static unsigned table_view_drop(LibmsiView *view)
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
-    LibmsiView *tables = NULL;
-    LibmsiRecord *rec = NULL;
-    unsigned r, row;
+    unsigned r;
     int i;
 
     TRACE("dropping table %s\n", debugstr_a(tv->name));
 
-    for (i = tv->table->col_count - 1; i >= 0; i--)
+    /* the columns of a temporary table are not in _Columns */
+    for (i = tv->table->col_count - 1; i >= 0 && tv->table->persistent != LIBMSI_CONDITION_FALSE; i--)
     {
         r = table_view_remove_column(view, tv->table->colinfo[i].tablename,
                                 tv->table->colinfo[i].number);
@@ -1995,33 +2026,13 @@ static unsigned table_view_drop(LibmsiView *view)
             return r;
     }
 
-    rec = libmsi_record_new(1);
-    if (!rec)
-        return LIBMSI_RESULT_OUTOFMEMORY;
-
-    libmsi_record_set_string(rec, 1, tv->name);
-
-    r = table_view_create(tv->db, szTables, &tables);
-    if (r != LIBMSI_RESULT_SUCCESS) {
-        g_object_unref(rec);
-        return r;
-    }
-
-    r = msi_table_find_row((LibmsiTableView *)tables, rec, &row, NULL);
-    if (r != LIBMSI_RESULT_SUCCESS)
-        goto done;
-
-    r = table_view_delete_row(tables, row);
+    r = table_view_remove_table_name(tv->db, tv->name);
     if (r != LIBMSI_RESULT_SUCCESS)
-        goto done;
+        return r;
 
     list_remove(&tv->table->entry);
     free_table(tv->table);
 
-done:
-    g_object_unref(rec);
-    tables->ops->delete(tables);
-
     return r;
 }
 
-- 
2.43.0


From fb1218feb3d31eaa8f35967c91a9ba8da4f443b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 024/122] fix: refuse an SQL integer that does not fit instead
 of storing another one

---
 libmsi/sql-parser.y | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 33f351a..0211003 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -25,6 +25,7 @@
 
 #include <stdarg.h>
 #include <stdio.h>
+#include <limits.h>
 #include <stdlib.h>
 
 #include "query.h"
@@ -51,7 +52,7 @@ typedef struct _LibmsiSQLInput
 } SQL_input;
 
 static unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **str );
-static int sql_atoi( void *info );
+static bool sql_atoi( void *info, int *val );
 static int sql_lex( void *SQL_lval, SQL_input *info );
 
 static char *parser_add_table( void *info, const char *list, const char *table );
@@ -745,7 +746,8 @@ string:
 number:
     TK_INTEGER
         {
-            $$ = sql_atoi( info );
+            if( !sql_atoi( info, &$$ ) )
+                YYABORT;
         }
     ;
 
@@ -850,7 +852,7 @@ unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **
     return LIBMSI_RESULT_SUCCESS;
 }
 
-int sql_atoi( void *info )
+static bool sql_atoi( void *info, int *val )
 {
     SQL_input* sql = (SQL_input*) info;
     const char *p = &sql->command[sql->n];
@@ -863,10 +865,14 @@ int sql_atoi( void *info )
             g_critical("should only be numbers here!\n");
             break;
         }
+        /* refuse a number that does not fit instead of storing another one */
+        if( r > (INT_MAX - (p[i]-'0')) / 10 )
+            return false;
         r = (p[i]-'0') + r*10;
     }
 
-    return r;
+    *val = r;
+    return true;
 }
 
 static int sql_error(void *info, const char *str )
-- 
2.43.0


From 5b5bb24866d4bb17dfa574b195f5fac88aa78f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 025/122] fix: SELECT DISTINCT with a binary column crashed
 when fetching it

---
 libmsi/distinct.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/libmsi/distinct.c b/libmsi/distinct.c
index cc813c0..42678e5 100644
--- a/libmsi/distinct.c
+++ b/libmsi/distinct.c
@@ -99,6 +99,21 @@ static unsigned distinct_view_fetch_int( LibmsiView *view, unsigned row, unsigne
     return dv->table->ops->fetch_int( dv->table, row, col, val );
 }
 
+static unsigned distinct_view_fetch_stream( LibmsiView *view, unsigned row, unsigned col, GsfInput **stm )
+{
+    LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
+
+    TRACE("%p %d %d %p\n", dv, row, col, stm );
+
+    if( !dv->table )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
+    if( row >= dv->row_count )
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
+    return dv->table->ops->fetch_stream( dv->table, dv->translation[ row ], col, stm );
+}
+
 static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
 {
     LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
@@ -252,7 +267,7 @@ static unsigned distinct_view_find_matching_rows( LibmsiView *view, unsigned col
 static const LibmsiViewOps distinct_ops =
 {
     distinct_view_fetch_int,
-    NULL,
+    distinct_view_fetch_stream,
     NULL,
     NULL,
     NULL,
-- 
2.43.0


From d01fce2774e9dd6b3a9987dd3205a4d5d2953913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 026/122] fix: ORDER BY several columns sorted by the first one
 only

---
 libmsi/where.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmsi/where.c b/libmsi/where.c
index c556f01..5a9fdf5 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -968,6 +968,7 @@ static unsigned where_view_sort(LibmsiView *view, column_info *columns)
         r = parse_column(wv, &orderinfo->columns[i], NULL);
         if (r != LIBMSI_RESULT_SUCCESS)
             goto error;
+        column = column->next;
     }
 
     wv->order_info = orderinfo;
-- 
2.43.0


From 919ec85f18c52faa0047bfc5558d51827a9514d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 027/122] fix: CREATE TABLE with a key column named twice
 crashed or was accepted

---
 libmsi/sql-parser.y | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 0211003..e12f688 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -997,6 +997,8 @@ static bool sql_mark_primary_keys( column_info **cols,
         {
             if( strcmp( k->column, c->column ) )
                 continue;
+            if( c->type & MSITYPE_KEY )
+                return false;   /* named twice */
             c->type |= MSITYPE_KEY;
             found = true;
             if (idx != count)
-- 
2.43.0


From 20e0a53e4b45e78d4392dc9b06bebf1dc7deb447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 028/122] fix: rows and streams with names too long for a
 storage were lost at commit

---
 libmsi/create.c          | 10 ++++++++++
 libmsi/libmsi-database.c |  2 +-
 libmsi/msipriv.h         |  1 +
 libmsi/table.c           | 30 +++++++++++++++++++++++++-----
 4 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/libmsi/create.c b/libmsi/create.c
index a824e99..21817a5 100644
--- a/libmsi/create.c
+++ b/libmsi/create.c
@@ -152,6 +152,7 @@ unsigned create_view_create( LibmsiDatabase *db, LibmsiView **view, const char *
     column_info *col;
     bool temp = true;
     bool tempprim = false;
+    char *encname;
 
     TRACE("%p\n", cv );
 
@@ -159,6 +160,15 @@ unsigned create_view_create( LibmsiDatabase *db, LibmsiView **view, const char *
     if( r != LIBMSI_RESULT_SUCCESS )
         return r;
 
+    /* its rows are stored in a stream of that name */
+    encname = encode_streamname( true, table );
+    if( !encname )
+        return LIBMSI_RESULT_OUTOFMEMORY;
+    r = streamname_fits( encname ) ? LIBMSI_RESULT_SUCCESS : LIBMSI_RESULT_BAD_QUERY_SYNTAX;
+    msi_free( encname );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        return r;
+
     cv = msi_alloc_zero( sizeof *cv );
     if( !cv )
         return LIBMSI_RESULT_FUNCTION_FAILED;
diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e48298e..99ac65c 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -411,7 +411,7 @@ unsigned msi_create_stream( LibmsiDatabase *db, const char *stname, GsfInput *st
         stream->stm = stm;
         g_object_ref(G_OBJECT(stream->stm));
         r = LIBMSI_RESULT_SUCCESS;
-    } else
+    } else if (streamname_fits(encname))
         r = msi_alloc_stream( db, encname, stm );
 
     msi_free(encname);
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index 4515348..b7c02e2 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -391,6 +391,7 @@ extern bool _libmsi_record_compare_fields(const LibmsiRecord *a, const LibmsiRec
 /* stream internals */
 extern void enum_stream_names( GsfInfile *stg );
 extern char *encode_streamname(bool bTable, const char *in);
+extern bool streamname_fits(const char *encname);
 extern char *decode_streamname(const char *in);
 
 /* database internals */
diff --git a/libmsi/table.c b/libmsi/table.c
index 03da231..69ac3ef 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -82,8 +82,6 @@ static const LibmsiColumnInfo _Tables_cols[1] = {
     { szTables,  1, szName,   MSITYPE_VALID | MSITYPE_STRING | MSITYPE_KEY | 64, 0, 0, 0, NULL },
 };
 
-#define MAX_STREAM_NAME 0x1f
-
 static inline unsigned bytes_per_column( LibmsiDatabase *db, const LibmsiColumnInfo *col, unsigned bytes_per_strref )
 {
     if( MSITYPE_IS_BINARY(col->type) )
@@ -118,13 +116,13 @@ static int utf2mime(int x)
 
 char *encode_streamname(bool bTable, const char *in)
 {
-    unsigned count = MAX_STREAM_NAME;
+    unsigned count = strlen( in )+2;
     unsigned ch, next;
     char *out;
     char *p;
 
-    if( !bTable )
-        count = strlen( in )+2;
+    if( bTable )
+        count++;
     if (!(out = msi_alloc( count*3 ))) return NULL;
     p = out;
 
@@ -175,6 +173,22 @@ char *encode_streamname(bool bTable, const char *in)
     return NULL;
 }
 
+/* can a storage hold a stream of this (encoded) name? */
+bool streamname_fits(const char *encname)
+{
+    unsigned units = 0;
+
+    /* names are limited to 31 UTF-16 code units */
+    for ( ; *encname; encname++ )
+    {
+        if( (*encname & 0xc0) != 0x80 )
+            units++;
+        if( (*encname & 0xf8) == 0xf0 )
+            units++;
+    }
+    return units <= 31;
+}
+
 static int mime2utf(int x)
 {
     if( x<10 )
@@ -329,6 +343,12 @@ unsigned write_stream_data( LibmsiDatabase *db, const char *stname,
         return ret;
 
     encname = encode_streamname(true, stname );
+    if( !streamname_fits( encname ) )
+    {
+        g_warning("stream name %s too long\n", debugstr_a(stname));
+        msi_free( encname );
+        return ret;
+    }
 
     stm = gsf_outfile_new_child( db->outfile, encname, false );
     msi_free( encname );
-- 
2.43.0


From 2926eafb13fd3017f88ec5eb99b594086bc1e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 029/122] fix: an UPDATE whose stream is refused left other
 columns changed

---
 libmsi/table.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 69ac3ef..7e26654 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1373,7 +1373,7 @@ static unsigned table_validate_fields( LibmsiTableView *tv, LibmsiRecord *rec, u
 static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord *rec, unsigned mask )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
-    unsigned i, val, r = LIBMSI_RESULT_SUCCESS;
+    unsigned i, pass, val, r = LIBMSI_RESULT_SUCCESS;
 
     if ( !tv->table )
         return LIBMSI_RESULT_INVALID_PARAMETER;
@@ -1386,6 +1386,9 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     if ( r != LIBMSI_RESULT_SUCCESS )
         return r;
 
+    /* streams may be refused: store them before any other field, but after
+     * the keys, which name them */
+    for ( pass = 0; pass < 3; pass++ )
     for ( i = 0; i < tv->num_cols; i++ )
     {
         bool persistent;
@@ -1394,6 +1397,10 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         if ( !(mask&(1u<<i)) )
             continue;
 
+        if ( pass != (tv->columns[i].type & MSITYPE_KEY ? 0 :
+                      MSITYPE_IS_BINARY(tv->columns[i].type) ? 1 : 2) )
+            continue;
+
         persistent = (tv->table->persistent != LIBMSI_CONDITION_FALSE) &&
                      (tv->table->data_persistent[row]);
         /* FIXME: should we allow updating keys? */
@@ -1456,7 +1463,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
 
         r = table_view_set_int( tv, row, i+1, val );
         if ( r != LIBMSI_RESULT_SUCCESS )
-            break;
+            return r;
     }
     return r;
 }
-- 
2.43.0


From fa4bcdd769d75d7c0d6fbfc86afa6ecd04158c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:54 +0000
Subject: [PATCH 030/122] fix: refuse a minus sign that ends a statement, and
 .5 as an integer

---
 libmsi/sql-parser.y | 4 ++--
 libmsi/tokenize.c   | 1 -
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index e12f688..0f319c0 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -862,8 +862,8 @@ static bool sql_atoi( void *info, int *val )
     {
         if( '0' > p[i] || '9' < p[i] )
         {
-            g_critical("should only be numbers here!\n");
-            break;
+            /* ".5" is one token, but no integer */
+            return false;
         }
         /* refuse a number that does not fit instead of storing another one */
         if( r > (INT_MAX - (p[i]-'0')) / 10 )
diff --git a/libmsi/tokenize.c b/libmsi/tokenize.c
index 20a3327..644e101 100644
--- a/libmsi/tokenize.c
+++ b/libmsi/tokenize.c
@@ -172,7 +172,6 @@ int sql_get_token(const char *zz, int *tokenType, int *skip){
       *tokenType = TK_SPACE;
       return i;
     case '-':
-      if( z[1]==0 ) return -1;
       *tokenType = TK_MINUS;
       return 1;
     case '(':
-- 
2.43.0


From 23e8f4a03db9f0cba6aca89a011e0c5553e54299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:06 +0000
Subject: [PATCH 031/122] fix: refuse a star beside columns and a primary key
 of none

---
 libmsi/sql-parser.y | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 0f319c0..45e86ed 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -450,6 +450,9 @@ selcollist:
     selcolumn
   | selcolumn TK_COMMA selcollist
         {
+            /* a star stands alone */
+            if( !$3 )
+                YYABORT;
             $1->next = $3;
         }
   | TK_STAR
@@ -462,6 +465,9 @@ collist:
     column
   | column TK_COMMA collist
         {
+            /* a star stands alone */
+            if( !$3 )
+                YYABORT;
             $1->next = $3;
         }
   | TK_STAR
@@ -984,7 +990,7 @@ static bool sql_mark_primary_keys( column_info **cols,
                                  column_info *keys )
 {
     column_info *k;
-    bool found = true;
+    bool found = keys != NULL;  /* "*" names no key */
     int count;
 
     for( k = keys, count = 0; k && found; k = k->next, count++ )
-- 
2.43.0


From 3a94e2c9d52c98237a9819c0f52281cfce867593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 032/122] fix: UPDATE stored NULL in a NOT NULL string column
 for a value of another type

---
 libmsi/update.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libmsi/update.c b/libmsi/update.c
index d312893..6ee76c3 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -59,8 +59,11 @@ static unsigned check_values( LibmsiView *wv, LibmsiRecord *values, unsigned col
             return r;
         if ( type & MSITYPE_KEY )
             return LIBMSI_RESULT_FUNCTION_FAILED;
-        if ( !(type & MSITYPE_NULLABLE) && !MSITYPE_IS_BINARY(type) &&
-             libmsi_record_is_null( values, i ) )
+        if ( (type & MSITYPE_NULLABLE) || MSITYPE_IS_BINARY(type) )
+            continue;
+        /* what is no string would be stored as NULL */
+        if ( (type & MSITYPE_STRING) ? !_libmsi_record_get_string_raw( values, i ) :
+                                       libmsi_record_is_null( values, i ) )
             return LIBMSI_RESULT_FUNCTION_FAILED;
     }
 
-- 
2.43.0


From 4e866021f1d73c32b7b14319d398b50e7b19502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 033/122] fix: tables whose name is an SQL keyword could not be
 exported

---
 libmsi/libmsi-database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 99ac65c..4994b6c 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1371,7 +1371,7 @@ end:
 static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *table,
                                         int fd, GError **error)
 {
-    static const char query[] = "select * from %s";
+    static const char query[] = "select * from `%s`";
     LibmsiRecord *rec = NULL;
     LibmsiQuery *view = NULL;
     LibmsiResult r;
-- 
2.43.0


From d0ce62d490a89b614dcb41f3fdef6ed6975319a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 034/122] fix: exported strings with tabs or line breaks were
 not escaped

---
 libmsi/libmsi-database.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 4994b6c..128a0c6 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -761,12 +761,10 @@ static void msi_parse_line(char **line, char ***entries, unsigned *num_entries,
 
         while (chars_left && *ptr != '\t' && *ptr != '\n' && *ptr != '\r')
         {
-            if (!*ptr) *ptr = '\n'; /* convert embedded nulls to \n */
-            if (ptr > *line && *ptr == '\x19' && *(ptr - 1) == '\x11')
-            {
-                *ptr = '\n';
-                *(ptr - 1) = '\r';
-            }
+            /* convert embedded nulls to \n, and undo msi_escape_text */
+            if (!*ptr || *ptr == '\x19') *ptr = '\n';
+            else if (*ptr == '\x11') *ptr = '\r';
+            else if (*ptr == '\x10') *ptr = '\t';
             ptr++;
             chars_left--;
         }
@@ -1254,6 +1252,20 @@ end:
     return spliced != -1;
 
 }
+
+/* tabs and line breaks separate the fields and rows of a text archive */
+static void msi_escape_text (char *str)
+{
+    for (; *str; str++) {
+        if (*str == '\t')
+            *str = '\x10';
+        else if (*str == '\r')
+            *str = '\x11';
+        else if (*str == '\n')
+            *str = '\x19';
+    }
+}
+
 static unsigned msi_export_record(int fd, LibmsiRecord *row,
                                   unsigned start, GFile *table_dir,
                                   GError **error)
@@ -1277,6 +1289,7 @@ static unsigned msi_export_record(int fd, LibmsiRecord *row,
             if (!str)
                 goto end;
         }
+        msi_escape_text (str);
 
         /* TODO full_write */
         if (write (fd, str, strlen (str)) != strlen (str)) {
@@ -1351,6 +1364,7 @@ static LibmsiResult msi_export_summaryinfo (LibmsiDatabase *db, int fd, GError *
             gchar *val = summary_info_as_string (si, i);
             if (!val)
                 goto end;
+            msi_escape_text (val);
             str = g_strdup_printf ("%d\t%s\r\n", i, val);
             sz = strlen (str);
             if (write (fd, str, sz) != sz)
-- 
2.43.0


From 060a6f51ecf1e9f3e46dc9885a1caaba70c251ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 035/122] fix: export wrote streams whose name holds a slash
 outside the table's directory

---
 libmsi/libmsi-database.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 128a0c6..5d09e98 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1235,8 +1235,15 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
     }
 
     *str = g_strdup (g_object_get_data (G_OBJECT (gsfin), "stname"));
+    if (strchr (*str, G_DIR_SEPARATOR)) {
+        g_set_error (error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_FUNCTION_FAILED,
+                     "stream name is no file name: %s", *str);
+        goto end;
+    }
     file = g_file_get_child (table_dir, *str);
-    out = G_OUTPUT_STREAM (g_file_replace (file, NULL, FALSE, 0, NULL, error));
+    out = (GOutputStream *)g_file_replace (file, NULL, FALSE, 0, NULL, error);
+    if (!out)
+        goto end;
     in = G_INPUT_STREAM (libmsi_istream_new (gsfin));
     spliced = g_output_stream_splice (out, in, 0, NULL, NULL);
 
@@ -1276,12 +1283,14 @@ static unsigned msi_export_record(int fd, LibmsiRecord *row,
 
     count = libmsi_record_get_field_count (row);
     for (i = start; i <= count; i++) {
-        char *str;
+        char *str = NULL;
 
         _libmsi_record_get_gsf_input (row, i, &in);
         if (in) {
-            if (!msi_export_stream (in, table_dir, &str, error))
+            if (!msi_export_stream (in, table_dir, &str, error)) {
+                g_free (str);
                 goto end;
+            }
             g_object_unref (in);
             in = NULL;
         } else {
-- 
2.43.0


From 14922954657836a3c5fa550a7a00913ec7c0807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 036/122] fix: import of malformed text archives ran past
 buffers

---
 libmsi/libmsi-database.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 5d09e98..3074993 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -720,7 +720,7 @@ static char *msi_read_text_archive(const char *path, unsigned *len)
     if (!g_file_get_contents(path, &data, &nread, NULL))
         return NULL;
 
-    while (!data[nread - 1]) nread--;
+    while (nread && !data[nread - 1]) nread--;
     *len = nread;
     return data;
 }
@@ -815,8 +815,8 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
     char *p;
     const char *type;
     unsigned sql_size = 1, i, len;
-    char expanded[128], *ptr;
-    char size[10], comma[2], extra[30];
+    char *expanded, *ptr;
+    char *size, comma[2], extra[30];
 
     static const char column_fmt[] = "`%s` %s%s%s%s ";
     static const char size_fmt[] = "(%s)";
@@ -834,14 +834,15 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
     for (i = 0; i < num_columns; i++)
     {
         type = NULL;
-        comma[1] = size[0] = extra[0] = '\0';
+        comma[1] = extra[0] = '\0';
+        size = NULL;
 
         if (i == num_columns - 1)
             comma[0] = '\0';
         else
             comma[0] = ',';
 
-        ptr = &types[i][1];
+        ptr = types[i][0] ? &types[i][1] : types[i];
         len = atol(ptr);
         extra[0] = '\0';
 
@@ -853,14 +854,14 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
             case 'L':
                 strcat(extra, localizable);
                 type = type_char;
-                sprintf(size, size_fmt, ptr);
+                size = g_strdup_printf(size_fmt, ptr);
                 break;
             case 's':
                 strcpy(extra, type_notnull);
                 /* fall through */
             case 'S':
                 type = type_char;
-                sprintf(size, size_fmt, ptr);
+                size = g_strdup_printf(size_fmt, ptr);
                 break;
             case 'i':
                 strcpy(extra, type_notnull);
@@ -889,18 +890,21 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
                 return NULL;
         }
 
-        sprintf(expanded, column_fmt, columns_data[i], type, size, extra, comma);
+        expanded = g_strdup_printf(column_fmt, columns_data[i], type, size ? size : "", extra, comma);
+        g_free(size);
         sql_size += strlen(expanded);
 
         p = msi_realloc(columns, sql_size * sizeof(char));
         if (!p)
         {
+            g_free(expanded);
             msi_free(columns);
             return NULL;
         }
         columns = p;
 
         strcat(columns, expanded);
+        g_free(expanded);
     }
 
     return columns;
@@ -956,6 +960,9 @@ static unsigned msi_add_table_to_db(LibmsiDatabase *db, char **columns, char **t
     char *postlude;
     GError *error = NULL; // FIXME: move error handling to caller
 
+    if (num_labels < 2)
+        return LIBMSI_RESULT_FUNCTION_FAILED; /* no primary key */
+
     prelude = msi_build_createsql_prelude(labels[0]);
     columns_sql = msi_build_createsql_columns(columns, types, num_columns);
     postlude = msi_build_createsql_postlude(labels + 1, num_labels - 1); /* skip over table name */
@@ -1132,9 +1139,17 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
     /* read in the table records */
     while (len)
     {
-        msi_parse_line( &ptr, &records[num_records], NULL, &len );
+        unsigned num_fields;
+
+        msi_parse_line( &ptr, &records[num_records], &num_fields, &len );
 
         num_records++;
+        if (num_fields != num_columns)
+        {
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+            goto done;
+        }
+
         temp_records = msi_realloc(records, (num_records + 1) * sizeof(char **));
         if (!temp_records)
         {
-- 
2.43.0


From 06f0f38207bf7a0505abf4c22497a01981a13202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 037/122] fix: an import that failed left part of the file's
 rows, or none of the table's

---
 libmsi/libmsi-database.c | 71 ++++++++++++++++++++++++++++++++--------
 libmsi/query.h           |  1 +
 libmsi/table.c           |  7 ++++
 3 files changed, 65 insertions(+), 14 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 3074993..6a7b37d 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1028,7 +1028,10 @@ static unsigned construct_record(unsigned num_columns, char **types,
                     r = _libmsi_record_load_stream_from_file(*rec, i + 1, file);
                     g_free (file);
                     if (r != LIBMSI_RESULT_SUCCESS)
+                    {
+                        g_object_unref(*rec);
                         return LIBMSI_RESULT_FUNCTION_FAILED;
+                    }
                 }
                 break;
             default:
@@ -1041,48 +1044,76 @@ static unsigned construct_record(unsigned num_columns, char **types,
     return LIBMSI_RESULT_SUCCESS;
 }
 
+/* the table's rows become those of the file, or stay as they are on failure */
 static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, char **types,
                                      char **labels, char ***records,
                                      int num_columns, int num_records)
 {
-    unsigned r, num_rows, num_cols;
-    int i;
+    unsigned r, num_rows, num_cols, i;
     LibmsiView *view;
     LibmsiRecord *rec;
+    GPtrArray *added, *replaced;
+    GArray *temporary;
 
     r = table_view_create(db, labels[0], &view);
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
+    added = g_ptr_array_new_with_free_func(g_object_unref);
+    replaced = g_ptr_array_new_with_free_func(g_object_unref);
+    temporary = g_array_new(FALSE, FALSE, sizeof(bool));
+
     r = view->ops->get_dimensions( view, &num_rows, &num_cols );
     if (r != LIBMSI_RESULT_SUCCESS)
-        return r;
+        goto done;
 
-    while (num_rows > 0)
+    for (i = 0; i < num_records; i++)
     {
-        r = view->ops->delete_row(view, --num_rows);
+        r = construct_record(num_columns, types, records[i], labels[0], &rec);
         if (r != LIBMSI_RESULT_SUCCESS)
             goto done;
+        g_ptr_array_add(added, rec);
     }
 
-    for (i = 0; i < num_records; i++)
+    for (i = 0; i < num_rows; i++)
     {
-        r = construct_record(num_columns, types, records[i], labels[0], &rec);
+        bool temp = table_view_row_is_temporary(view, i);
+
+        r = msi_view_get_row(db, view, i, &rec);
         if (r != LIBMSI_RESULT_SUCCESS)
             goto done;
+        g_ptr_array_add(replaced, rec);
+        g_array_append_val(temporary, temp);
+    }
 
-        r = view->ops->insert_row(view, rec, -1, false);
+    while (num_rows > 0)
+    {
+        r = view->ops->delete_row(view, --num_rows);
         if (r != LIBMSI_RESULT_SUCCESS)
-        {
-            g_object_unref(rec);
             goto done;
-        }
+    }
+
+    for (i = 0; i < added->len; i++)
+    {
+        r = view->ops->insert_row(view, g_ptr_array_index(added, i), -1, false);
+        if (r != LIBMSI_RESULT_SUCCESS)
+            break;
+    }
 
-        g_object_unref(rec);
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        while (i > 0)
+            view->ops->delete_row(view, --i);
+        for (i = 0; i < replaced->len; i++)
+            view->ops->insert_row(view, g_ptr_array_index(replaced, i), i,
+                                  g_array_index(temporary, bool, i));
     }
 
 done:
-    msi_free(view);
+    g_ptr_array_unref(added);
+    g_ptr_array_unref(replaced);
+    g_array_unref(temporary);
+    view->ops->delete(view);
     return r;
 }
 
@@ -1170,7 +1201,9 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
     }
     else
     {
-        if (!table_view_exists(db, labels[0]))
+        bool created = !table_view_exists(db, labels[0]);
+
+        if (created)
         {
             r = msi_add_table_to_db( db, columns, types, labels, num_labels, num_columns );
             if (r != LIBMSI_RESULT_SUCCESS)
@@ -1181,6 +1214,16 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
         }
 
         r = msi_add_records_to_table( db, columns, types, labels, records, num_columns, num_records);
+        if (r != LIBMSI_RESULT_SUCCESS && created)
+        {
+            LibmsiQuery *query;
+
+            if (_libmsi_query_open( db, &query, "DROP TABLE `%s`", labels[0] ) == LIBMSI_RESULT_SUCCESS)
+            {
+                _libmsi_query_execute( query, NULL );
+                g_object_unref( query );
+            }
+        }
     }
 
 done:
diff --git a/libmsi/query.h b/libmsi/query.h
index 78791fd..c678420 100644
--- a/libmsi/query.h
+++ b/libmsi/query.h
@@ -96,6 +96,7 @@ unsigned _libmsi_parse_sql( LibmsiDatabase *db, const char *command, LibmsiView
                    struct list *mem );
 
 unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **view );
+bool table_view_row_is_temporary( LibmsiView *view, unsigned row );
 
 unsigned select_view_create( LibmsiDatabase *db, LibmsiView **view, LibmsiView *table,
                         const column_info *columns );
diff --git a/libmsi/table.c b/libmsi/table.c
index 7e26654..064c82b 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2085,6 +2085,13 @@ static const LibmsiViewOps table_ops =
     table_view_drop,
 };
 
+bool table_view_row_is_temporary( LibmsiView *view, unsigned row )
+{
+    LibmsiTableView *tv = (LibmsiTableView*)view;
+
+    return !tv->table->data_persistent[row];
+}
+
 unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **view )
 {
     LibmsiTableView *tv ;
-- 
2.43.0


From a63675832598cb62b23f875f00c52ba8e9301ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 038/122] fix: importing a summary property with a malformed
 date stored an arbitrary date

---
 libmsi/libmsi-summary-info.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index c14f99c..73cbc65 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -261,7 +261,7 @@ static gchar* filetime_to_string (guint64 ft)
     return g_date_time_format(dt, "%Y/%m/%d %H:%M:%S");
 }
 
-static void parse_filetime( const char *str, guint64 *ft )
+static bool parse_filetime( const char *str, guint64 *ft )
 {
     /* set to 0, tm_isdst can make the result vary: */
     struct tm tm = { 0, };
@@ -275,25 +275,25 @@ static void parse_filetime( const char *str, guint64 *ft )
     while ( *p == ' ' || *p == '\t' ) p++;
 
     tm.tm_year = strtol( p, &end, 10 ) - 1900;
-    if (*end != '/') return;
+    if (*end != '/') return false;
     p = end + 1;
 
     tm.tm_mon = strtol( p, &end, 10 ) - 1;
-    if (*end != '/') return;
+    if (*end != '/') return false;
     p = end + 1;
 
     tm.tm_mday = strtol( p, &end, 10 );
-    if (*end != ' ') return;
+    if (*end != ' ') return false;
     p = end + 1;
 
     while ( *p == ' ' || *p == '\t' ) p++;
 
     tm.tm_hour = strtol( p, &end, 10 );
-    if (*end != ':') return;
+    if (*end != ':') return false;
     p = end + 1;
 
     tm.tm_min = strtol( p, &end, 10 );
-    if (*end != ':') return;
+    if (*end != ':') return false;
     p = end + 1;
 
     tm.tm_sec = strtol( p, &end, 10 );
@@ -304,6 +304,7 @@ static void parse_filetime( const char *str, guint64 *ft )
      * then convert to 100 ns units.
      */
     *ft = (t + 134774ULL * 86400ULL) * 10000000ULL;
+    return true;
 }
 
 /* FIXME: doesn't deal with endian conversion */
@@ -986,7 +987,8 @@ static unsigned parse_prop( const char *prop, const char *value, unsigned *pid,
     case LIBMSI_PROPERTY_LASTPRINTED:
     case LIBMSI_PROPERTY_CREATED_TM:
     case LIBMSI_PROPERTY_LASTSAVED_TM:
-        parse_filetime( value, ft_value );
+        if (!parse_filetime( value, ft_value ))
+            return LIBMSI_RESULT_FUNCTION_FAILED;
         break;
 
     case LIBMSI_PROPERTY_SUBJECT:
@@ -1015,6 +1017,9 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
     unsigned i, j;
     LibmsiSummaryInfo *si;
 
+    if (num_columns % 2)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     si = libmsi_summary_info_new (db, num_records * (num_columns / 2), NULL);
     if (!si)
     {
@@ -1037,10 +1042,9 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
 
             assert( get_type(pid) != OLEVT_EMPTY );
             r = _libmsi_summary_info_set_property( si, pid, get_type(pid), int_value, &ft_value, str_value );
+            msi_free(str_value);
             if (r != LIBMSI_RESULT_SUCCESS)
                 goto end;
-
-            msi_free(str_value);
         }
     }
 
-- 
2.43.0


From cedd6173bd94ad22ff5bc6950d5970de923d3da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 039/122] fix: summary dates were imported an hour off where
 daylight saving time applies

---
 libmsi/libmsi-summary-info.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 73cbc65..23b02ad 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -263,8 +263,8 @@ static gchar* filetime_to_string (guint64 ft)
 
 static bool parse_filetime( const char *str, guint64 *ft )
 {
-    /* set to 0, tm_isdst can make the result vary: */
-    struct tm tm = { 0, };
+    /* local time, as filetime_to_string writes it */
+    struct tm tm = { .tm_isdst = -1 };
     time_t t;
     const char *p = str;
     char *end;
-- 
2.43.0


From dfddf3b0122f17801725a805f35e18ff1377a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 040/122] fix: importing summary information without properties
 failed

---
 libmsi/libmsi-summary-info.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 23b02ad..923c344 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -1019,6 +1019,8 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
 
     if (num_columns % 2)
         return LIBMSI_RESULT_FUNCTION_FAILED;
+    if (!num_records)
+        return LIBMSI_RESULT_SUCCESS; /* no property to set */
 
     si = libmsi_summary_info_new (db, num_records * (num_columns / 2), NULL);
     if (!si)
-- 
2.43.0


From ffeedeb07e1f6266afb53f6c528d1f2e86ea06a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 041/122] fix: import stored zero for cells of integer columns
 that are no integer

---
 libmsi/libmsi-database.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 6a7b37d..6323594 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1018,7 +1018,17 @@ static unsigned construct_record(unsigned num_columns, char **types,
                 break;
             case 'I': case 'i':
                 if (*data[i])
-                    libmsi_record_set_int(*rec, i + 1, atoi(data[i]));
+                {
+                    char *end;
+                    gint64 val = g_ascii_strtoll(data[i], &end, 10);
+
+                    if (*end || val < G_MININT32 || val > G_MAXINT32)
+                    {
+                        g_object_unref(*rec);
+                        return LIBMSI_RESULT_FUNCTION_FAILED;
+                    }
+                    libmsi_record_set_int(*rec, i + 1, val);
+                }
                 break;
             case 'V': case 'v':
                 if (*data[i])
-- 
2.43.0


From de310e95cdbd1c77bd785e5990b35a1e65f08c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 042/122] fix: import put cells in the wrong columns when the
 file's keys do not come first

---
 libmsi/libmsi-database.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 6323594..7769df7 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1000,7 +1000,8 @@ done:
     return r;
 }
 
-static unsigned construct_record(unsigned num_columns, char **types,
+/* fields[i] is the table's column that the i-th column of the file fills */
+static unsigned construct_record(unsigned num_columns, char **types, const unsigned *fields,
                              char **data, const char *name, LibmsiRecord **rec)
 {
     unsigned i;
@@ -1014,7 +1015,7 @@ static unsigned construct_record(unsigned num_columns, char **types,
         switch (types[i][0])
         {
             case 'L': case 'l': case 'S': case 's':
-                libmsi_record_set_string(*rec, i + 1, data[i]);
+                libmsi_record_set_string(*rec, fields[i], data[i]);
                 break;
             case 'I': case 'i':
                 if (*data[i])
@@ -1027,7 +1028,7 @@ static unsigned construct_record(unsigned num_columns, char **types,
                         g_object_unref(*rec);
                         return LIBMSI_RESULT_FUNCTION_FAILED;
                     }
-                    libmsi_record_set_int(*rec, i + 1, val);
+                    libmsi_record_set_int(*rec, fields[i], val);
                 }
                 break;
             case 'V': case 'v':
@@ -1035,7 +1036,7 @@ static unsigned construct_record(unsigned num_columns, char **types,
                 {
                     unsigned r;
                     char *file = g_build_filename (name, data[i], NULL);
-                    r = _libmsi_record_load_stream_from_file(*rec, i + 1, file);
+                    r = _libmsi_record_load_stream_from_file(*rec, fields[i], file);
                     g_free (file);
                     if (r != LIBMSI_RESULT_SUCCESS)
                     {
@@ -1064,6 +1065,7 @@ static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, cha
     LibmsiRecord *rec;
     GPtrArray *added, *replaced;
     GArray *temporary;
+    unsigned *fields;
 
     r = table_view_create(db, labels[0], &view);
     if (r != LIBMSI_RESULT_SUCCESS)
@@ -1072,14 +1074,34 @@ static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, cha
     added = g_ptr_array_new_with_free_func(g_object_unref);
     replaced = g_ptr_array_new_with_free_func(g_object_unref);
     temporary = g_array_new(FALSE, FALSE, sizeof(bool));
+    fields = g_new0(unsigned, num_columns);
 
     r = view->ops->get_dimensions( view, &num_rows, &num_cols );
     if (r != LIBMSI_RESULT_SUCCESS)
         goto done;
 
+    /* the table's keys come first, wherever the file has them */
+    for (i = 0; i < num_columns * num_cols; i++)
+    {
+        const char *name;
+
+        r = view->ops->get_column_info(view, i % num_cols + 1, &name, NULL, NULL, NULL);
+        if (r != LIBMSI_RESULT_SUCCESS)
+            goto done;
+        if (!strcmp(name, columns[i / num_cols]))
+            fields[i / num_cols] = i % num_cols + 1;
+    }
+
+    for (i = 0; i < num_columns; i++)
+        if (num_columns != num_cols || !fields[i])
+        {
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+            goto done;
+        }
+
     for (i = 0; i < num_records; i++)
     {
-        r = construct_record(num_columns, types, records[i], labels[0], &rec);
+        r = construct_record(num_columns, types, fields, records[i], labels[0], &rec);
         if (r != LIBMSI_RESULT_SUCCESS)
             goto done;
         g_ptr_array_add(added, rec);
@@ -1123,6 +1145,7 @@ done:
     g_ptr_array_unref(added);
     g_ptr_array_unref(replaced);
     g_array_unref(temporary);
+    g_free(fields);
     view->ops->delete(view);
     return r;
 }
-- 
2.43.0


From 5e91be4629b7cf3dcda615e51492290ea279752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 043/122] fix: the code page of a database without strings was
 lost at commit

---
 libmsi/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 8f20b9d..3faf8a4 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -518,13 +518,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
     if( r != LIBMSI_RESULT_SUCCESS)
         goto end;
 
-    if ( (poolsize > 4) && (GUINT16_FROM_LE(pool[1]) & 0x8000) )
+    if ( (poolsize >= 4) && (GUINT16_FROM_LE(pool[1]) & 0x8000) )
         *bytes_per_strref = LONG_STR_BYTES;
     else
         *bytes_per_strref = sizeof(uint16_t);
 
     count = poolsize/4;
-    if( poolsize > 4 )
+    if( poolsize >= 4 )
         codepage = GUINT16_FROM_LE(pool[0]) | ( (GUINT16_FROM_LE(pool[1]) & ~0x8000) << 16 );
     else
         codepage = CP_ACP;
-- 
2.43.0


From 72fa26239d5c248da5c87d57042207e57eb25243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 044/122] fix: streams not yet stored read as empty after a
 failed commit

---
 libmsi/libmsi-database.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 7769df7..311d5c9 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2515,6 +2515,8 @@ static unsigned commit_stream( const char *name, GsfInput *stm, void *opaque)
     ret = LIBMSI_RESULT_SUCCESS;
 
 end:
+    /* a failed commit leaves the stream to be read and committed again */
+    gsf_input_seek (stm, 0, G_SEEK_SET);
     gsf_output_close(GSF_OUTPUT(outstm));
     g_object_unref(G_OBJECT(outstm));
     return ret;
-- 
2.43.0


From 48b82bed49814743c4d7e2168c70b227dd1cf4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 045/122] fix: merge could not look up rows by keys with
 quotes, NULL keys or in tables named like keywords

---
 libmsi/libmsi-database.c | 98 +++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 41 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 311d5c9..6403bbd 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1725,64 +1725,69 @@ done:
     return r;
 }
 
-static char *get_key_value(LibmsiQuery *view, const char *key, LibmsiRecord *rec)
+/* the index of the column that holds the given key, or 0 */
+static unsigned get_key_field(LibmsiRecord *colnames, const char *key)
 {
-    LibmsiRecord *colnames;
-    char *str;
-    unsigned r, i = 0;
-    int cmp;
+    unsigned i, count = libmsi_record_get_field_count(colnames);
 
-    r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &colnames);
-    if (r != LIBMSI_RESULT_SUCCESS)
-        return NULL;
-
-    do
-    {
-        str = msi_dup_record_field(colnames, ++i);
-        cmp = strcmp( key, str );
-        msi_free(str);
-    } while (cmp);
-
-    g_object_unref(colnames);
-
-    if (_libmsi_record_get_string_raw(rec, i))  /* check record field is a string */
-        /* quote string record fields */
-        str = g_strdup_printf ("'%s'", _libmsi_record_get_string_raw (rec, i));
-    else
-        str = libmsi_record_get_string (rec, i);
+    for (i = 1; i <= count; i++)
+        if (!strcmp(key, _libmsi_record_get_string_raw(colnames, i)))
+            return i;
 
-    return str;
+    return 0;
 }
 
-static char *create_diff_row_query(LibmsiDatabase *merge, LibmsiQuery *view,
-                                    char *table, LibmsiRecord *rec)
+/* builds the query for the row with the same keys as rec; the values of the
+ * keys become parameters, so that they can hold any text */
+static char *create_diff_row_query(LibmsiDatabase *merge, LibmsiQuery *view, const char *table,
+                                   LibmsiRecord *rec, LibmsiRecord **params)
 {
-    GString *query;
-    char *val;
+    GString *query = NULL;
     const char *key;
-    LibmsiRecord *keys;
-    unsigned r, i, count;
+    LibmsiRecord *keys = NULL, *colnames = NULL;
+    unsigned r, i, field, count, used = 0;
 
     r = _libmsi_database_get_primary_keys(merge, table, &keys);
     if (r != LIBMSI_RESULT_SUCCESS)
         return NULL;
 
+    r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &colnames);
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        g_object_unref(keys);
+        return NULL;
+    }
+
     query = g_string_sized_new(256);
-    g_string_printf (query, "SELECT * FROM %s WHERE ", table);
+    g_string_printf (query, "SELECT * FROM `%s` WHERE ", table);
     count = libmsi_record_get_field_count(keys);
+    *params = libmsi_record_new(count);
     for (i = 1; i <= count; i++)
     {
         key = _libmsi_record_get_string_raw(keys, i);
-        val = get_key_value(view, key, rec);
+        field = get_key_field(colnames, key);
+        if (!field)
+        {
+            g_string_free(query, TRUE);
+            query = NULL;
+            break;
+        }
+
+        if (i > 1)
+            g_string_append (query, " AND ");
 
-        if (i == count)
-            g_string_append_printf (query, "`%s` = %s", key, val);
+        if (libmsi_record_is_null(rec, field))
+            g_string_append_printf (query, "`%s` IS NULL", key);
         else
-            g_string_append_printf (query, "`%s` = %s AND ", key, val);
+        {
+            g_string_append_printf (query, "`%s` = ?", key);
+            _libmsi_record_copy_field(rec, field, *params, ++used);
+        }
     }
 
     g_object_unref(keys);
-    return  g_string_free (query, FALSE);
+    g_object_unref(colnames);
+    return query ? g_string_free (query, FALSE) : NULL;
 }
 
 static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
@@ -1792,21 +1797,28 @@ static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
     MERGEROW *mergerow;
     LibmsiQuery *dbview = NULL;
     LibmsiRecord *row = NULL;
+    LibmsiRecord *params = NULL;
     char *query = NULL;
     unsigned r = LIBMSI_RESULT_SUCCESS;
     GError *err = NULL;
 
     if (table_view_exists(data->db, table->name))
     {
-        query = create_diff_row_query(data->merge, data->curview, table->name, rec);
+        query = create_diff_row_query(data->merge, data->curview, table->name, rec, &params);
         if (!query)
-            return LIBMSI_RESULT_OUTOFMEMORY;
+        {
+            r = LIBMSI_RESULT_OUTOFMEMORY;
+            goto done;
+        }
 
         dbview = libmsi_query_new(data->db, query, &err);
         if (err)
+        {
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
             goto done;
+        }
 
-        r = _libmsi_query_execute(dbview, NULL);
+        r = _libmsi_query_execute(dbview, params);
         if (r != LIBMSI_RESULT_SUCCESS)
             goto done;
 
@@ -1844,8 +1856,12 @@ done:
         g_critical("%s", err->message);
     g_clear_error(&err);
     msi_free(query);
-    g_object_unref(row);
-    g_object_unref(dbview);
+    if (params)
+        g_object_unref(params);
+    if (row)
+        g_object_unref(row);
+    if (dbview)
+        g_object_unref(dbview);
     return r;
 }
 
-- 
2.43.0


From b4e47d21a793489e39522216ce23dd7771f59891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 046/122] fix: merge failed on tables named like keywords and
 released its rows wrongly

---
 libmsi/libmsi-database.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 6403bbd..6887de1 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1960,7 +1960,7 @@ static void merge_free_rows(MERGETABLE *table)
         MERGEROW *row = LIST_ENTRY(item, MERGEROW, entry);
 
         list_remove(&row->entry);
-        g_object_unref(row);
+        g_object_unref(row->data);
         msi_free(row);
     }
 }
@@ -2005,7 +2005,7 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     MERGETABLE *table;
     LibmsiQuery *mergeview = NULL;
 
-    static const char query[] = "SELECT * FROM %s";
+    static const char query[] = "SELECT * FROM `%s`";
 
     table = msi_alloc_zero(sizeof(MERGETABLE));
     if (!table)
@@ -2014,6 +2014,8 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
        return LIBMSI_RESULT_OUTOFMEMORY;
     }
 
+    list_init(&table->rows);
+
     r = msi_get_table_labels(db, name, &table->labels, &table->numlabels);
     if (r != LIBMSI_RESULT_SUCCESS)
         goto err;
@@ -2030,8 +2032,6 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     if (r != LIBMSI_RESULT_SUCCESS)
         goto err;
 
-    list_init(&table->rows);
-
     table->name = strdup(name);
     table->numconflicts = 0;
 
@@ -2040,7 +2040,8 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     return LIBMSI_RESULT_SUCCESS;
 
 err:
-    g_object_unref(mergeview);
+    if (mergeview)
+        g_object_unref(mergeview);
     free_merge_table(table);
     *ptable = NULL;
     return r;
@@ -2055,7 +2056,7 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
     const char *name;
     unsigned r;
 
-    static const char query[] = "SELECT * FROM %s";
+    static const char query[] = "SELECT * FROM `%s`";
 
     name = _libmsi_record_get_string_raw(rec, 1);
 
@@ -2094,8 +2095,10 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
     list_add_tail(data->tabledata, &table->entry);
 
 done:
-    g_object_unref(dbview);
-    g_object_unref(mergeview);
+    if (dbview)
+        g_object_unref(dbview);
+    if (mergeview)
+        g_object_unref(mergeview);
     return r;
 }
 
-- 
2.43.0


From 754bbcf10d7366815b87c704eb76bbfdaea5fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 047/122] fix: merge with conflicts but no error table created
 a table named (null)

---
 libmsi/libmsi-database.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 6887de1..0453519 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2227,6 +2227,9 @@ libmsi_database_merge (LibmsiDatabase *db,
         {
             conflicts = true;
 
+            if (!tablename)
+                continue;
+
             r = update_merge_errors(db, tablename, table->name,
                                     table->numconflicts);
             if (r != LIBMSI_RESULT_SUCCESS)
-- 
2.43.0


From cdd458e21c43858bd8551efd261bc21ab3c465c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 048/122] fix: merge dropped columns the table does not have,
 or stopped half way on NOT NULL ones

---
 libmsi/libmsi-database.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 0453519..e94c17b 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1642,7 +1642,14 @@ static unsigned merge_verify_colnames(LibmsiQuery *dbview, LibmsiQuery *mergevie
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
+    /* the rows would lose the values of columns the table does not have */
     count = libmsi_record_get_field_count(dbrec);
+    if (count < libmsi_record_get_field_count(mergerec))
+    {
+        r = LIBMSI_RESULT_DATATYPE_MISMATCH;
+        goto done;
+    }
+
     for (i = 1; i <= count; i++)
     {
         if (!_libmsi_record_get_string_raw(mergerec, i))
@@ -1670,8 +1677,16 @@ static unsigned merge_verify_colnames(LibmsiQuery *dbview, LibmsiQuery *mergevie
     count = libmsi_record_get_field_count(dbrec);
     for (i = 1; i <= count; i++)
     {
+        /* further columns of the table have no value in the merged rows */
         if (!_libmsi_record_get_string_raw(mergerec, i))
-            break;
+        {
+            if (g_ascii_islower(_libmsi_record_get_string_raw(dbrec, i)[0]))
+            {
+                r = LIBMSI_RESULT_DATATYPE_MISMATCH;
+                break;
+            }
+            continue;
+        }
 
         if (!merge_type_match(_libmsi_record_get_string_raw(dbrec, i),
                      _libmsi_record_get_string_raw(mergerec, i)))
-- 
2.43.0


From 646d454c8c20b61a966da902c806b33230bbfdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 049/122] fix: merge reported rows with the same binary data as
 conflicts

---
 libmsi/libmsi-record.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index 6339338..de95ebb 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -750,7 +750,34 @@ LibmsiRecord *_libmsi_record_clone(LibmsiRecord *rec)
     return clone;
 }
 
-G_GNUC_PURE
+/* whether two streams have the same contents */
+static bool streams_equal(GsfInput *a, GsfInput *b)
+{
+    uint8_t abuf[4096], bbuf[4096];
+    gsf_off_t left = gsf_input_size(a);
+
+    if (a == b)
+        return true;
+
+    if (left != gsf_input_size(b))
+        return false;
+
+    if (gsf_input_seek(a, 0, G_SEEK_SET) || gsf_input_seek(b, 0, G_SEEK_SET))
+        return false;
+
+    while (left > 0)
+    {
+        size_t n = MIN(left, (gsf_off_t)sizeof(abuf));
+
+        if (!gsf_input_read(a, n, abuf) || !gsf_input_read(b, n, bbuf) ||
+            memcmp(abuf, bbuf, n))
+            return false;
+        left -= n;
+    }
+
+    return true;
+}
+
 bool _libmsi_record_compare_fields(const LibmsiRecord *a, const LibmsiRecord *b, unsigned field)
 {
     if (a->fields[field].type != b->fields[field].type)
@@ -772,6 +799,10 @@ bool _libmsi_record_compare_fields(const LibmsiRecord *a, const LibmsiRecord *b,
             break;
 
         case LIBMSI_FIELD_TYPE_STREAM:
+            if (!streams_equal(a->fields[field].u.stream, b->fields[field].u.stream))
+                return false;
+            break;
+
         default:
             return false;
     }
@@ -779,7 +810,6 @@ bool _libmsi_record_compare_fields(const LibmsiRecord *a, const LibmsiRecord *b,
 }
 
 
-G_GNUC_PURE
 bool _libmsi_record_compare(const LibmsiRecord *a, const LibmsiRecord *b)
 {
     unsigned i;
-- 
2.43.0


From 0ff1ee42fe212d0fc7b3c021a7d410a99b9fdb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 050/122] fix: merge from a database with a temporary table
 stopped half way

---
 libmsi/libmsi-database.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e94c17b..5bcb8b5 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2098,6 +2098,14 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
     if (r != LIBMSI_RESULT_SUCCESS)
         goto done;
 
+    /* a temporary table has no keys to tell its rows apart by */
+    if (table->numlabels < 2)
+    {
+        free_merge_table(table);
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+        goto done;
+    }
+
     data->curtable = table;
     data->curview = mergeview;
     r = _libmsi_query_iterate_records(mergeview, NULL, merge_diff_row, data);
-- 
2.43.0


From 5a7a933991cb84c8b7b2c85d729324b48c0d3e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 051/122] fix: transforms that add columns to a table not
 loaded yet, or name long tables, went wrong

---
 libmsi/table.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 064c82b..384d5c1 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -982,7 +982,9 @@ static void msi_update_table_columns( LibmsiDatabase *db, const char *name )
     unsigned size, offset, old_count;
     unsigned n;
 
+    /* a table that is not loaded has its columns read when it is */
     table = find_cached_table( db, name );
+    if (!table) return;
     old_count = table->col_count;
     msi_free_colinfo( table->colinfo, table->col_count );
     msi_free( table->colinfo );
@@ -2478,7 +2480,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
     LibmsiTableView *tv = NULL;
     unsigned r, n, sz, i, mask, num_cols, colcol = 0, rawsize = 0;
     LibmsiRecord *rec = NULL;
-    char coltable[32];
+    g_autofree char *coltable = NULL;
     const char *name;
 
     if (!transform)
@@ -2486,7 +2488,6 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
 
     name = transform->name;
 
-    coltable[0] = 0;
     TRACE("%p %p %p %s\n", db, stg, st, debugstr_a(name) );
 
     /* read the transform data */
@@ -2566,14 +2567,13 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
         rec = msi_get_transform_record( tv, st, stg, &rawdata[n], bytes_per_strref );
         if (rec)
         {
-            char table[32];
+            g_autofree char *table = NULL;
             unsigned number = LIBMSI_NULL_INT;
             unsigned row = 0;
 
             if (!strcmp( name, szColumns ))
             {
-                unsigned tablesz = 32;
-                _libmsi_record_get_string( rec, 1, table, &tablesz );
+                table = libmsi_record_get_string( rec, 1 );
                 number = libmsi_record_get_int( rec, 2 );
 
                 /*
@@ -2583,10 +2583,11 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                 if ( number == LIBMSI_NULL_INT )
                 {
                     /* reset the column number on a new table */
-                    if (strcmp( coltable, table ))
+                    if (g_strcmp0( coltable, table ))
                     {
                         colcol = 0;
-                        strcpy( coltable, table );
+                        g_free( coltable );
+                        coltable = g_strdup( table );
                     }
 
                     /* fix nul column numbers */
-- 
2.43.0


From 1d85c49cc6a68ec72d7a4c2939ad8b1a5ddc1832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 052/122] fix: a transform that deletes a row that is not there
 added it

---
 libmsi/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 384d5c1..9db1bbf 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2622,7 +2622,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                         g_warning("failed to modify row %u\n", r);
                 }
             }
-            else
+            else if (mask)
             {
                 TRACE("inserting row\n");
                 r = table_view_insert_row( &tv->view, rec, -1, false );
-- 
2.43.0


From f66c12ef29827787471066a310cf4d2e919ae554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 053/122] fix: a transform that removes a table left it loaded,
 or crashed

---
 libmsi/table.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libmsi/table.c b/libmsi/table.c
index 9db1bbf..265ac11 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2606,6 +2606,16 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                     r = table_view_delete_row( &tv->view, row );
                     if (r != LIBMSI_RESULT_SUCCESS)
                         g_warning("failed to delete row %u\n", r);
+                    else if (!strcmp( name, szTables ))
+                    {
+                        /* the table is gone, and with it what is loaded of it */
+                        LibmsiTable *gone = find_cached_table( db, _libmsi_record_get_string_raw( rec, 1 ) );
+                        if (gone)
+                        {
+                            list_remove( &gone->entry );
+                            free_table( gone );
+                        }
+                    }
                 }
                 else if (mask & 1)
                 {
-- 
2.43.0


From 5f5e02bf10d61fbf32bd56333700fdd8cbeb9ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 054/122] fix: transforms with NULL binary cells, or without
 the streams of others, crashed

---
 libmsi/table.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 265ac11..2c90b64 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2284,18 +2284,25 @@ static LibmsiRecord *msi_get_transform_record( const LibmsiTableView *tv, const
         {
             char *encname;
             GsfInput *stm = NULL;
-            unsigned r;
+            unsigned r, n = bytes_per_column( tv->db, &columns[i], bytes_per_strref );
 
-            ofs += bytes_per_column( tv->db, &columns[i], bytes_per_strref );
+            val = read_raw_int(rawdata, ofs, n);
+            ofs += n;
+            if (!val)
+                continue;
 
             r = msi_record_encoded_stream_name( tv, rec, &encname );
             if ( r != LIBMSI_RESULT_SUCCESS )
+            {
+                g_object_unref( rec );
                 return NULL;
+            }
 
             stm = gsf_infile_child_by_name( stg, encname );
-            if ( r != LIBMSI_RESULT_SUCCESS )
+            if ( !stm )
             {
                 msi_free( encname );
+                g_object_unref( rec );
                 return NULL;
             }
 
-- 
2.43.0


From 702963b01d569d7d5eba8d44faa3a6e6042609d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 055/122] fix: transform rows with more columns than their
 table were read out of bounds

---
 libmsi/table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 2c90b64..7f5f5e2 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2518,7 +2518,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
           debugstr_a(name), tv->num_cols, tv->row_size, rawsize );
 
     /* interpret the data */
-    for (n = 0; n < rawsize;)
+    for (n = 0; n + 2 <= rawsize;)
     {
         mask = rawdata[n] | (rawdata[n + 1] << 8);
         if (mask & 1)
@@ -2528,7 +2528,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
              * the number of columns is specified in the high byte
              */
             sz = 2;
-            num_cols = mask >> 8;
+            num_cols = MIN(mask >> 8, tv->num_cols);
             for (i = 0; i < num_cols; i++)
             {
                 if( (tv->columns[i].type & MSITYPE_STRING) &&
-- 
2.43.0


From f0bca24b4b153a721e5384438634823d635d5fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 056/122] fix: a transform that adds columns to a table not
 read yet lost its rows

---
 libmsi/table.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmsi/table.c b/libmsi/table.c
index 7f5f5e2..d45adbe 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2604,6 +2604,13 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
 
             if (TRACE_ON) dump_record( rec );
 
+            /* the rows of a table whose columns change must have been read */
+            if (number != LIBMSI_NULL_INT && table && table_view_exists( db, table ))
+            {
+                LibmsiTable *changed;
+                get_table( db, table, &changed );
+            }
+
             r = msi_table_find_row( tv, rec, &row, NULL );
             if (r == LIBMSI_RESULT_SUCCESS)
             {
-- 
2.43.0


From fc2c9068b15f97e27bc9aae93b08c13c1c553835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 057/122] fix: tables that take the name of a dropped one got
 its stored rows

---
 libmsi/libmsi-database.c |  1 +
 libmsi/msipriv.h         |  1 +
 libmsi/table.c           | 33 +++++++++++++++++++++------------
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 5bcb8b5..c6e603c 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -644,6 +644,7 @@ static void free_contents(LibmsiDatabase *db)
         db->infile = NULL;
     }
 
+    g_clear_pointer( &db->dropped, g_hash_table_unref );
     free_streams( db );
     free_storages( db );
 }
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index b7c02e2..636be02 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -104,6 +104,7 @@ struct _LibmsiDatabase
     struct list transforms;
     struct list streams;
     struct list storages;
+    GHashTable *dropped; /* tables whose stored rows are gone */
 };
 
 typedef struct _LibmsiView LibmsiView;
diff --git a/libmsi/table.c b/libmsi/table.c
index d45adbe..df4a74e 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -620,6 +620,23 @@ unsigned _libmsi_open_table( LibmsiDatabase *db, const char *name, bool encoded
     return LIBMSI_RESULT_SUCCESS;
 }
 
+/* unload a table that does not exist any more: if another one takes its name,
+ * it has none of the rows stored for this one */
+static void drop_table( LibmsiDatabase *db, const char *name )
+{
+    LibmsiTable *table = find_cached_table( db, name );
+
+    if (!db->dropped)
+        db->dropped = g_hash_table_new_full( g_str_hash, g_str_equal, g_free, NULL );
+    g_hash_table_add( db->dropped, g_strdup( name ) );
+
+    if (table)
+    {
+        list_remove( &table->entry );
+        free_table( table );
+    }
+}
+
 static unsigned get_table( LibmsiDatabase *db, const char *name, LibmsiTable **table_ret )
 {
     LibmsiTable *table;
@@ -650,7 +667,8 @@ static unsigned get_table( LibmsiDatabase *db, const char *name, LibmsiTable **t
         free_table( table );
         return r;
     }
-    r = read_table_from_storage( db, table, db->infile );
+    if (!db->dropped || !g_hash_table_contains( db->dropped, name ))
+        r = read_table_from_storage( db, table, db->infile );
     if (r != LIBMSI_RESULT_SUCCESS)
     {
         list_remove(&table->entry);
@@ -2059,8 +2077,7 @@ static unsigned table_view_drop(LibmsiView *view)
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    list_remove(&tv->table->entry);
-    free_table(tv->table);
+    drop_table(tv->db, tv->table->name);
 
     return r;
 }
@@ -2621,15 +2638,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                     if (r != LIBMSI_RESULT_SUCCESS)
                         g_warning("failed to delete row %u\n", r);
                     else if (!strcmp( name, szTables ))
-                    {
-                        /* the table is gone, and with it what is loaded of it */
-                        LibmsiTable *gone = find_cached_table( db, _libmsi_record_get_string_raw( rec, 1 ) );
-                        if (gone)
-                        {
-                            list_remove( &gone->entry );
-                            free_table( gone );
-                        }
-                    }
+                        drop_table( db, _libmsi_record_get_string_raw( rec, 1 ) );
                 }
                 else if (mask & 1)
                 {
-- 
2.43.0


From 3519a60aac982f703f14cf4e7f368cad98f58f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 058/122] fix: msibuild refused scripts with blanks between
 statements or after the last

---
 tools/sqldelim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/sqldelim.c b/tools/sqldelim.c
index ed2e2b1..9f106a8 100644
--- a/tools/sqldelim.c
+++ b/tools/sqldelim.c
@@ -230,7 +230,7 @@ stmt:
             cont = false;
             stmt = g_strndup(str.str, str.len);
             g_string_erase(&str, 0, str.len);
-            if (stmt[0]) {
+            if (stmt[strspn(stmt, " \t\n\f")]) {
                 ret = fn(stmt, opaque);
             }
             free(stmt);
-- 
2.43.0


From 4bff2eb40c10cb2b60a388b7c1f366b28cd7af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 059/122] fix: msibuild stored the other steps when one failed,
 or reported success

---
 tools/msibuild.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index ac59880..9cf8428 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -255,7 +255,7 @@ static void show_usage(void)
 int main(int argc, char *argv[])
 {
     GError *error = NULL;
-    gboolean success = FALSE;
+    gboolean success = FALSE, failed = TRUE;
     int n;
 
 #if !GLIB_CHECK_VERSION(2,35,1)
@@ -303,7 +303,7 @@ int main(int argc, char *argv[])
         case 'i':
             do {
                 if (!import_table(argv[1], &error))
-                    break;
+                    goto end;
 
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
@@ -316,7 +316,7 @@ int main(int argc, char *argv[])
                     ret = sql_get_statement("", do_query, &error);
                 }
                 if (ret) {
-                    break;
+                    goto end;
                 }
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
@@ -342,14 +342,15 @@ int main(int argc, char *argv[])
     if (!libmsi_database_commit(db, &error))
         goto end;
 
+    failed = FALSE;
+
 end:
     g_object_unref(db);
 
     if (error != NULL) {
         g_printerr("error: %s\n", error->message);
         g_clear_error(&error);
-        exit(1);
     }
 
-    return 0;
+    return failed;
 }
-- 
2.43.0


From 88e701a03751a3871ab14878f2301096dffffa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 060/122] fix: msiinfo export -s wrote no rows, and bad SQL for
 rows that start with NULL

---
 tools/msiinfo.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index f029ef8..e4660b4 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -514,6 +514,7 @@ static gboolean export_insert(const char *table,
     gchar *name, *type;
     guint i;
     char *s;
+    const char *sep = "";
 
     printf("INSERT INTO `%s` (", table);
     for (i = 1; i <= num_columns; i++)
@@ -525,23 +526,20 @@ static gboolean export_insert(const char *table,
         name = libmsi_record_get_string(names, i);
         g_return_val_if_fail(name != NULL, FALSE);
 
-        if (i > 1) {
-            printf(", ");
-        }
-
-        printf("`%s`", name);
+        printf("%s`%s`", sep, name);
+        sep = ", ";
         g_free(name);
     }
     printf(") VALUES (");
+    sep = "";
     for (i = 1; i <= num_columns; i++)
     {
         if (libmsi_record_is_null(vals, i)) {
             continue;
         }
 
-        if (i > 1) {
-            printf(", ");
-        }
+        fputs(sep, stdout);
+        sep = ", ";
 
         type = libmsi_record_get_string(types, i);
         g_return_val_if_fail(type != NULL, FALSE);
@@ -610,6 +608,10 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
         goto done;
 
     /* write out row 4 onwards, the data */
+    if (!libmsi_query_execute(query, NULL, error))
+        goto done;
+
+    success = TRUE;
     while ((rec = libmsi_query_fetch(query, &err))) {
         success = export_insert(table, name, type, rec);
         g_object_unref(rec);
-- 
2.43.0


From 8eb0855b6074ec0f52d30ffd023a2916c72b9e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 061/122] fix: msiinfo export -s wrote escapes that SQL does
 not have

---
 tools/msiinfo.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index e4660b4..ea26b58 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -495,9 +495,7 @@ static void print_quoted_string(const char *s)
     putchar('\'');
     for (; *s; s++) {
         switch (*s) {
-        case '\n': putchar('\\'); putchar('n'); break;
-        case '\r': putchar('\\'); putchar('r'); break;
-        case '\\': putchar('\\'); putchar('\\'); break;
+        /* everything else stands for itself in SQL */
         case '\'': putchar('\\'); putchar('\''); break;
         default: putchar(*s);
         }
-- 
2.43.0


From 2e722b3b21418bf11da0949b6ab2348ce8ac8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 062/122] fix: msidump failed on names with blanks and put
 binary values in the wrong directory

---
 tools/msidump.in | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/tools/msidump.in b/tools/msidump.in
index a6e3b7c..2b34f7b 100644
--- a/tools/msidump.in
+++ b/tools/msidump.in
@@ -119,21 +119,28 @@ signature=${signature:-false}
 
 # Here we go
 
+case $1 in
+    /*) msifile=$1 ;;
+    *) msifile=$PWD/$1 ;;
+esac
+
 if $tables ; then
     TABLES=$(msiinfo tables "$1")
-    for i in $TABLES; do
+    while IFS= read -r i; do
         echo "Exporting table $i..."
-        msiinfo export "$1" "$i" > "$destdir/$i.idt"
-    done
+        # binary values go to files in the current directory
+        (cd -- "$destdir" && msiinfo export "$msifile" "$i" > "$i.idt")
+    done <<< "$TABLES"
 fi
 
 if $streams ; then
     mkdir -p "$destdir/_Streams"
     STREAMS=$(msiinfo streams "$1")
-    for i in $STREAMS; do
+    while IFS= read -r i; do
+        [[ -n $i ]] || continue
         echo "Exporting stream $i..."
         msiinfo extract "$1" "$i" > "$destdir/_Streams/$i"
-    done
+    done <<< "$STREAMS"
 fi
 
 if $signature ; then
-- 
2.43.0


From ffc334a579924a807b523606e20b538e01641d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 063/122] fix: msidiff failed on file names with blanks

---
 tools/msidiff.in | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/msidiff.in b/tools/msidiff.in
index 7d54aac..cd8f05a 100644
--- a/tools/msidiff.in
+++ b/tools/msidiff.in
@@ -142,11 +142,11 @@ done
 tmpdir=`mktemp -d ${TMPDIR:-/tmp}/msidiff.XXXXXX`
 
 mkdir "$tmpdir/old" "$tmpdir/new"
-msidump --signature --tables --directory "$tmpdir/old" $1 >/dev/null
-msidump --signature --tables --directory "$tmpdir/new" $2 >/dev/null
+msidump --signature --tables --directory "$tmpdir/old" "$1" >/dev/null
+msidump --signature --tables --directory "$tmpdir/new" "$2" >/dev/null
 if ${list:-false} || ${long:-false} ; then
-  msiextract --directory "$tmpdir/old/files" $1 >/dev/null
-  msiextract --directory "$tmpdir/new/files" $2 >/dev/null
+  msiextract --directory "$tmpdir/old/files" "$1" >/dev/null
+  msiextract --directory "$tmpdir/new/files" "$2" >/dev/null
 fi
 
 cd "$tmpdir"
-- 
2.43.0


From c01d2e26c76935ffed7085b1d45681ff2fdc8d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 064/122] fix: msidiff reported rows in another order as
 different

---
 tools/msidiff.in | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/msidiff.in b/tools/msidiff.in
index cd8f05a..edba273 100644
--- a/tools/msidiff.in
+++ b/tools/msidiff.in
@@ -151,6 +151,12 @@ fi
 
 cd "$tmpdir"
 
+# The order of rows depends on how the package was made.
+for i in old/*.idt new/*.idt ; do
+    { head -n 3 "$i" ; tail -n +4 "$i" | LC_ALL=C sort ; } > sorted
+    mv sorted "$i"
+done
+
 # Did the archives uncompress into base dirs?
 if [[ $(ls -1d old/* | wc -l) -eq 1 ]] ; then
   old=$(ls -1d old/*)
-- 
2.43.0


From 11f3c18beb344673850571420d3c96ebc2bf7902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 065/122] fix: msidiff reported the times of directories as
 different

---
 tools/msidiff.in | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/msidiff.in b/tools/msidiff.in
index edba273..a0352c8 100644
--- a/tools/msidiff.in
+++ b/tools/msidiff.in
@@ -210,6 +210,8 @@ if $list ; then
 fi
 
 if $long ; then
+    # The times of directories are those of the extraction.
+    find "$old/files" "$new/files" -type d -exec touch -d @0 {} + || true
     find "$old/files" -ls | \
         perl -pe "s|^(?:[\d\s]*)(\S+)(?:\s+\d+)(.+)$|\1\2| ;
                   s|.*\s\Q$old/files\E$|| ; s|(\s)\Q$old/files/\E|\1|" | \
-- 
2.43.0


From a415a38446c249158a5a3fe1e2a813cd8e85d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 066/122] fix: msiinfo used objects it does not have when a
 stream or table is missing

---
 tools/msiinfo.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index ea26b58..31092fb 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -377,9 +377,14 @@ static int cmd_extract(struct Command *cmd, int argc, char **argv, GError **erro
         goto end;
     g_object_unref(rec);
 
+    r = 1;
     rec = libmsi_query_fetch(query, error);
     if (*error)
         goto end;
+    if (!rec) {
+        fprintf(stderr, "%s: no such stream: %s\n", g_get_prgname (), argv[2]);
+        goto end;
+    }
 
 #if O_BINARY
     _setmode(STDOUT_FILENO, O_BINARY);
@@ -626,10 +631,11 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
     g_clear_error(&err);
 
 done:
-    g_object_unref(name);
-    g_object_unref(type);
-    g_object_unref(keys);
-    g_object_unref(query);
+    g_clear_object(&name);
+    g_clear_object(&type);
+    g_clear_object(&keys);
+    g_clear_object(&query);
+    g_free(sql);
     return success;
 }
 
-- 
2.43.0


From 67684a18f8e86a49b38a31ce106df196f3360ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 067/122] fix: msiextract listed only the first package

---
 tools/msiextract.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index f19e07c..55a3c48 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -137,7 +137,7 @@ public void extract (string filename) throws GLib.Error {
     }
 
     if (list_only)
-        exit (0);
+        return;
 
     query = new Libmsi.Query (db, "SELECT * FROM `Media`");
     query.execute ();
-- 
2.43.0


From 716e208d9907e60b8148eb7ee3fad0601c2a0926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 068/122] fix: msiextract took the source of a directory for
 part of its name

---
 tools/msiextract.vala | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index 55a3c48..91fd98e 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -79,7 +79,8 @@ public void extract_cab (Libmsi.Database db, string cab,
 }
 
 public string? get_directory_name (Libmsi.Record rec) throws GLib.Error {
-    var name = get_long_name (rec.get_string (3));
+    // target:source, of which the target is where files are installed
+    var name = get_long_name (rec.get_string (3).split (":", 2)[0]);
 
     // only by intuition...
     if (rec.get_string (1) == "ProgramFilesFolder")
-- 
2.43.0


From b741e74100ffa5bda603aae82f4958e2db1f9402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 069/122] fix: msiextract looped or crashed on root directories
 that are their own parent and on missing rows

---
 tools/msiextract.vala | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index 91fd98e..bae54ec 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -107,10 +107,18 @@ public void extract (string filename) throws GLib.Error {
     while ((rec = query.fetch ()) != null) {
         var dir_id = rec.get_string (3);
         var dir_rec = directories.lookup (dir_id);
+        if (dir_rec == null)
+            throw new IOError.FAILED ("%s: no such directory: %s", filename, dir_id);
         var dir = get_directory_name (dir_rec);
+        var depth = 0;
 
         do {
             var parent = dir_rec.get_string (2);
+            // a root directory may name itself as its parent
+            if (parent == dir_rec.get_string (1))
+                break;
+            if (depth++ > directories.size ())
+                throw new IOError.FAILED ("%s: directory is its own parent: %s", filename, parent);
             dir_rec = directories.lookup (parent);
             if (dir_rec == null)
                 break;
@@ -131,6 +139,8 @@ public void extract (string filename) throws GLib.Error {
     query.execute ();
     while ((rec = query.fetch ()) != null) {
         var dir = components_dir.lookup (rec.get_string (2));
+        if (dir == null)
+            throw new IOError.FAILED ("%s: no such component: %s", filename, rec.get_string (2));
         var file = Path.build_filename (dir, get_long_name (rec.get_string (3)));
         if (list_only)
             GLib.stdout.printf ("%s\n", file);
-- 
2.43.0


From 349812c98840d3e090d6118d92a74d59cfab1f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 070/122] fix: msiextract crashed on a missing cabinet stream

---
 tools/msiextract.vala | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index bae54ec..fca9530 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -51,6 +51,8 @@ public void extract_cab (Libmsi.Database db, string cab,
         var query = new Libmsi.Query (db, "SELECT `Data` FROM `_Streams` WHERE `Name` = '%s'".printf (name));
         query.execute ();
         var rec = query.fetch ();
+        if (rec == null)
+            throw new IOError.FAILED ("no such stream: %s", name);
         cabinet.load (rec.get_stream (1));
     }
     else {
-- 
2.43.0


From 15cbf182ceacbd32c585d904c208a6ba2b00e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 071/122] fix: msibuild crashed on an empty script

---
 tools/sqldelim.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/sqldelim.c b/tools/sqldelim.c
index 9f106a8..7705abd 100644
--- a/tools/sqldelim.c
+++ b/tools/sqldelim.c
@@ -228,6 +228,9 @@ int sql_get_statement(const char *start,
         if (done) {
 stmt:
             cont = false;
+            if (!str.len) {
+                continue;
+            }
             stmt = g_strndup(str.str, str.len);
             g_string_erase(&str, 0, str.len);
             if (stmt[strspn(stmt, " \t\n\f")]) {
-- 
2.43.0


From 9f4f5df66f9ce2e19ac5f49e6c56b254f793913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 072/122] fix: msidiff reported the times of extraction as
 different

---
 tools/msidiff.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/msidiff.in b/tools/msidiff.in
index a0352c8..3e178dc 100644
--- a/tools/msidiff.in
+++ b/tools/msidiff.in
@@ -210,8 +210,8 @@ if $list ; then
 fi
 
 if $long ; then
-    # The times of directories are those of the extraction.
-    find "$old/files" "$new/files" -type d -exec touch -d @0 {} + || true
+    # The times of files are those of the extraction.
+    find "$old/files" "$new/files" -exec touch -d @0 {} + || true
     find "$old/files" -ls | \
         perl -pe "s|^(?:[\d\s]*)(\S+)(?:\s+\d+)(.+)$|\1\2| ;
                   s|.*\s\Q$old/files\E$|| ; s|(\s)\Q$old/files/\E|\1|" | \
-- 
2.43.0


From 5c02024521a0f77bdfcc3204bfad544466e6e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 073/122] fix: wixl compared the numbers in variables and
 strings as zero

---
 tools/wixl/preprocessor.vala | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 1769d3c..5bef080 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -186,6 +186,9 @@ namespace Wixl {
             }
 
             int to_int (Value val) {
+                if (val.holds (typeof (string)))
+                    return int.parse (val.get_string () ?? "");
+
                 Value result = 0;
                 val.transform (ref result);
                 return result.get_int ();
-- 
2.43.0


From cb9de7aff4235b8e3ac01150f0162d2dee6e63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 074/122] fix: wixl undef did not find variables written with
 their var. prefix

---
 tools/wixl/preprocessor.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 5bef080..5d4c015 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -442,7 +442,7 @@ namespace Wixl {
                         break;
                     case "undef":
                         var value = reader.const_value ().strip ();
-                        undefine_variable (value);
+                        undefine_variable (remove_prefix ("var.", value));
                         break;
                     case "require":
                         var value = eval (reader.const_value (), file).strip ();
-- 
2.43.0


From 9c4ac40f534fddad6e32a5161574586a93c74c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 075/122] fix: wixl did not expand references in the values of
 defines

---
 tools/wixl/preprocessor.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 5d4c015..5f90e6b 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -435,7 +435,7 @@ namespace Wixl {
                         var r = /^\s*(?P<name>.+?)\s*=\s*(?P<value>.+?)\s*$/;
                         if (r.match (reader.const_value (), 0, out info)) {
                             var name = remove_prefix ("var.", info.fetch_named ("name"));
-                            var value = unquote (info.fetch_named ("value"));
+                            var value = eval (unquote (info.fetch_named ("value")), file);
                             define_variable (name, value);
                         } else
                             throw new Wixl.Error.FAILED ("invalid define");
-- 
2.43.0


From 03dd4efa3fc1a90c2f9734ef3c14a7eed866c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 076/122] fix: wixl evaluated the conditions of directives in
 inactive branches

---
 tools/wixl/preprocessor.vala | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 5f90e6b..1bf3657 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -393,12 +393,12 @@ namespace Wixl {
                     case "ifdef":
                         ifstack.push_head (context);
                         var value = reader.const_value ().strip ();
-                        context = new IfContext (context.enabled && context.is_true, eval_variable (value, file) != null, IfContext.State.IF);
+                        context = new IfContext (context.enabled && context.is_true, context.enabled && context.is_true && eval_variable (value, file) != null, IfContext.State.IF);
                         break;
                     case "ifndef":
                         ifstack.push_head (context);
                         var value = reader.const_value ().strip ();
-                        context = new IfContext (context.enabled && context.is_true, eval_variable (value, file) == null, IfContext.State.IF);
+                        context = new IfContext (context.enabled && context.is_true, context.enabled && context.is_true && eval_variable (value, file) == null, IfContext.State.IF);
                         break;
                     case "else":
                         if (ifstack.is_empty ())
@@ -416,7 +416,7 @@ namespace Wixl {
                     case "if":
                         ifstack.push_head (context);
                         var value = reader.const_value ().strip ();
-                        context = new IfContext (context.enabled && context.is_true, eval_condition (value, file), IfContext.State.IF);
+                        context = new IfContext (context.enabled && context.is_true, context.enabled && context.is_true && eval_condition (value, file), IfContext.State.IF);
                         break;
                     default:
                         handled = false;
-- 
2.43.0


From ba4dcc74caeff34e628fa4685eee8b76849b961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 077/122] fix: wixl ignored elseif directives

---
 tools/wixl/preprocessor.vala | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 1bf3657..1967939 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -400,6 +400,15 @@ namespace Wixl {
                         var value = reader.const_value ().strip ();
                         context = new IfContext (context.enabled && context.is_true, context.enabled && context.is_true && eval_variable (value, file) == null, IfContext.State.IF);
                         break;
+                    case "elseif":
+                        if (ifstack.is_empty ())
+                            throw new Wixl.Error.FAILED ("Unmatched elseif");
+                        if (!context.state.in_if ())
+                            throw new Wixl.Error.FAILED ("Unmatched elseif");
+                        context.state = IfContext.State.ELSEIF;
+                        context.is_true = context.enabled && context.never_true &&
+                            eval_condition (reader.const_value ().strip (), file);
+                        break;
                     case "else":
                         if (ifstack.is_empty ())
                             throw new Wixl.Error.FAILED ("Unmatched else");
-- 
2.43.0


From 5cdfb780e459621deaa2f01a0df8eb6c57fa9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 078/122] fix: wixl accepted directives that lack their
 argument

---
 tools/wixl/preprocessor.vala | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 1967939..7a31b54 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -377,6 +377,10 @@ namespace Wixl {
             }
         }
 
+        static string directive_value (Xml.TextReader reader) {
+            return reader.const_value () ?? "";
+        }
+
         void preprocess_xml (Xml.TextReader reader, Xml.TextWriter writer, File? file, bool is_include = false) throws GLib.Error {
             IfContext context = new IfContext (true, true);
             var ifstack = new Queue<IfContext> ();
@@ -392,12 +396,12 @@ namespace Wixl {
                     switch (reader.const_local_name ()) {
                     case "ifdef":
                         ifstack.push_head (context);
-                        var value = reader.const_value ().strip ();
+                        var value = directive_value (reader).strip ();
                         context = new IfContext (context.enabled && context.is_true, context.enabled && context.is_true && eval_variable (value, file) != null, IfContext.State.IF);
                         break;
                     case "ifndef":
                         ifstack.push_head (context);
-                        var value = reader.const_value ().strip ();
+                        var value = directive_value (reader).strip ();
                         context = new IfContext (context.enabled && context.is_true, context.enabled && context.is_true && eval_variable (value, file) == null, IfContext.State.IF);
                         break;
                     case "elseif":
@@ -407,7 +411,7 @@ namespace Wixl {
                             throw new Wixl.Error.FAILED ("Unmatched elseif");
                         context.state = IfContext.State.ELSEIF;
                         context.is_true = context.enabled && context.never_true &&
-                            eval_condition (reader.const_value ().strip (), file);
+                            eval_condition (directive_value (reader).strip (), file);
                         break;
                     case "else":
                         if (ifstack.is_empty ())
@@ -424,7 +428,7 @@ namespace Wixl {
                         break;
                     case "if":
                         ifstack.push_head (context);
-                        var value = reader.const_value ().strip ();
+                        var value = directive_value (reader).strip ();
                         context = new IfContext (context.enabled && context.is_true, context.enabled && context.is_true && eval_condition (value, file), IfContext.State.IF);
                         break;
                     default:
@@ -441,8 +445,9 @@ namespace Wixl {
                     switch (reader.const_local_name ()) {
                     case "define":
                         MatchInfo info;
+                        var text = directive_value (reader);
                         var r = /^\s*(?P<name>.+?)\s*=\s*(?P<value>.+?)\s*$/;
-                        if (r.match (reader.const_value (), 0, out info)) {
+                        if (r.match (text, 0, out info)) {
                             var name = remove_prefix ("var.", info.fetch_named ("name"));
                             var value = eval (unquote (info.fetch_named ("value")), file);
                             define_variable (name, value);
@@ -450,22 +455,22 @@ namespace Wixl {
                             throw new Wixl.Error.FAILED ("invalid define");
                         break;
                     case "undef":
-                        var value = reader.const_value ().strip ();
+                        var value = directive_value (reader).strip ();
                         undefine_variable (remove_prefix ("var.", value));
                         break;
                     case "require":
-                        var value = eval (reader.const_value (), file).strip ();
+                        var value = eval (directive_value (reader), file).strip ();
                         include (value, loc, writer, true);
                         break;
                     case "include":
-                        var value = eval (reader.const_value (), file).strip ();
+                        var value = eval (directive_value (reader), file).strip ();
                         include (value, loc, writer);
                         break;
                     case "warning":
-                        print ("warning", loc, eval (reader.const_value (), file));
+                        print ("warning", loc, eval (directive_value (reader), file));
                         break;
                     case "error":
-                        print ("error", loc, eval (reader.const_value (), file));
+                        print ("error", loc, eval (directive_value (reader), file));
                         Posix.exit (1);
                         break;
                     default:
-- 
2.43.0


From 9ddc32627484082fa1b50dea6fe66b737d3d3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 079/122] fix: wixl took an undefined variable as equal to any
 text ignoring case

---
 tools/wixl/preprocessor.vala | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 7a31b54..b31cc1b 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -213,7 +213,12 @@ namespace Wixl {
                 else if (accept ('!') && expect ('='))
                     return to_string (left) != to_string (term ());
                 else if (accept ('~') && expect ('=')) {
-                    return to_string (left).ascii_casecmp (to_string (term ())) == 0;
+                    string? a = to_string (left);
+                    string? b = to_string (term ());
+
+                    if (a == null || b == null)
+                        return a == b;
+                    return a.ascii_casecmp (b) == 0;
                 }
 
                 if (op != Op.NONE) {
-- 
2.43.0


From a6c89200587589ef927ae70bbd7afaaa28e82811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 080/122] fix: wixl crashed on files that include themselves
 without end

---
 tools/wixl/preprocessor.vala | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index b31cc1b..002585d 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -535,6 +535,9 @@ namespace Wixl {
             return true;
         }
 
+        const uint MAX_INCLUDE_DEPTH = 1024;
+        uint include_depth = 0;
+
         // Use it as a set
         HashTable<string,string*> requires = new HashTable<string, string*> (str_hash, str_equal);
         void include (string name, Location loc, Xml.TextWriter writer, bool is_req = false) throws GLib.Error {
@@ -552,11 +555,16 @@ namespace Wixl {
                 dirs += dir.get_child (name).get_path ();
             dirs += loc.file.get_parent ().get_child (name).get_path ();
 
+            if (include_depth >= MAX_INCLUDE_DEPTH)
+                throw new Wixl.Error.FAILED ("Includes are nested too deeply at %s", name);
+
+            include_depth++;
             foreach (var inc in dirs) {
                 success = include_try (inc, writer);
                 if (success)
                     break;
             }
+            include_depth--;
             if (!success) {
                 print ("error", loc, "Failed to include %s".printf (name));
                 Posix.exit (1);
-- 
2.43.0


From 3f2ab7235a1381a07bf484a0e1b681203ceabff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 081/122] fix: wixl failed on command line arguments with other
 than ASCII characters

---
 tools/wixl/wixl.vala | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/wixl/wixl.vala b/tools/wixl/wixl.vala
index 993860d..bbbbe0e 100644
--- a/tools/wixl/wixl.vala
+++ b/tools/wixl/wixl.vala
@@ -47,6 +47,7 @@ namespace Wixl {
     }
 
     int main (string[] args) {
+        Intl.setlocale (LocaleCategory.ALL, "");
         Intl.bindtextdomain (Config.GETTEXT_PACKAGE, Config.LOCALEDIR);
         Intl.bind_textdomain_codeset (Config.GETTEXT_PACKAGE, "UTF-8");
         Intl.textdomain (Config.GETTEXT_PACKAGE);
-- 
2.43.0


From c111fd200eb9f72a3b3f14907ec86b286f6673ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 082/122] fix: wixl failed to build packages with ini files

The statements that fill the IniFile and RemoveIniFile tables lacked a
backtick, and an IniFile without a Directory was left out.
---
 tools/wixl/msi.vala | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 4ff0560..837fb58 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -961,10 +961,10 @@ namespace Wixl {
         static construct {
             name = "IniFile";
             sql_create = "CREATE TABLE `IniFile` (`IniFile` CHAR(72) NOT NULL, `FileName` CHAR(255) NOT NULL LOCALIZABLE, `DirProperty` CHAR(72), `Section` CHAR(255) NOT NULL LOCALIZABLE, `Key` CHAR(255) NOT NULL LOCALIZABLE, `Value` CHAR(255) NOT NULL LOCALIZABLE, `Action` INT NOT NULL, `Component_` CHAR(72) NOT NULL PRIMARY KEY `IniFile`)";
-            sql_insert = "INSERT INTO `IniFile` (`IniFile`, `FileName`, `DirProperty`, `Section`, `Key`, Value`, `Action`, `Component_`) VALUES (?, ?, ?, ?, ?, ?, ?, ?)";
+            sql_insert = "INSERT INTO `IniFile` (`IniFile`, `FileName`, `DirProperty`, `Section`, `Key`, `Value`, `Action`, `Component_`) VALUES (?, ?, ?, ?, ?, ?, ?, ?)";
         }
 
-        public void add (string IniFile, string FileName, string DirProperty, string Section, string Key, string Value, int Action, string Component) throws GLib.Error {
+        public void add (string IniFile, string FileName, string? DirProperty, string Section, string Key, string Value, int Action, string Component) throws GLib.Error {
             var rec = new Libmsi.Record (8);
             if (!rec.set_string (1, IniFile) ||
                 !rec.set_string (2, FileName) ||
@@ -984,10 +984,10 @@ namespace Wixl {
         static construct {
             name = "RemoveIniFile";
             sql_create = "CREATE TABLE `RemoveIniFile` (`RemoveIniFile` CHAR(72) NOT NULL, `FileName` CHAR(255) NOT NULL LOCALIZABLE, `DirProperty` CHAR(72), `Section` CHAR(255) NOT NULL LOCALIZABLE, `Key` CHAR(255) NOT NULL LOCALIZABLE, `Value` CHAR(255) LOCALIZABLE, `Action` INT NOT NULL, `Component_` CHAR(72) NOT NULL PRIMARY KEY `RemoveIniFile`)";
-            sql_insert = "INSERT INTO `RemoveIniFile` (`RemoveIniFile`, `FileName`, `DirProperty`, `Section`, `Key`, Value`, `Action`, `Component_`) VALUES (?, ?, ?, ?, ?, ?, ?, ?)";
+            sql_insert = "INSERT INTO `RemoveIniFile` (`RemoveIniFile`, `FileName`, `DirProperty`, `Section`, `Key`, `Value`, `Action`, `Component_`) VALUES (?, ?, ?, ?, ?, ?, ?, ?)";
         }
 
-        public void add (string IniFile, string FileName, string DirProperty, string Section, string Key, string? Value, int Action, string Component) throws GLib.Error {
+        public void add (string IniFile, string FileName, string? DirProperty, string Section, string Key, string? Value, int Action, string Component) throws GLib.Error {
             var rec = new Libmsi.Record (8);
             if (!rec.set_string (1, IniFile) ||
                 !rec.set_string (2, FileName) ||
-- 
2.43.0


From f6d2abb70059027b68af17931774d070d2e02de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 083/122] fix: wixl wrote a root that does not exist for HKMU

The Root column of the Registry table has -1 for the root that depends on
the installation context.
---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index a241111..646660b 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -809,7 +809,7 @@ namespace Wixl {
             HKCU,
             HKLM,
             HKU,
-            HKMU;
+            HKMU = -1;
 
             public static RegistryRoot from_string(string s) throws GLib.Error {
                 return enum_from_string<RegistryRoot> (s);
-- 
2.43.0


From 6d78931776017fc706b4902707cee168aa7fa5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 084/122] fix: wixl left out elements that lack a required
 attribute

It only printed a critical warning and wrote a package without the row.
---
 tools/wixl/builder.vala |  20 +++++-
 tools/wixl/msi.vala     |   2 +-
 tools/wixl/wix.vala     | 154 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 173 insertions(+), 3 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 646660b..2f110f2 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -409,7 +409,8 @@ namespace Wixl {
             db.table_property.add ("ProductCode", get_uuid (product.Id));
             db.table_property.add ("ProductName", product.Name);
             db.table_property.add ("ProductVersion", product.Version);
-            db.table_property.add ("UpgradeCode", add_braces (product.UpgradeCode));
+            if (product.UpgradeCode != null)
+                db.table_property.add ("UpgradeCode", add_braces (product.UpgradeCode));
         }
 
         [Flags]
@@ -751,6 +752,8 @@ namespace Wixl {
         WixDirectory get_directory (WixComponent comp) throws GLib.Error {
             if (comp.parent is WixComponentGroup) {
                 var group = comp.parent as WixComponentGroup;
+                if (group.Directory == null)
+                    throw new Wixl.Error.FAILED ("component group %s has no Directory".printf (group.Id));
                 return find_element<WixDirectory> (group.Directory);
             } else if (comp.parent is WixDirectory || comp.parent is WixDirectoryRef) {
                 return resolve<WixDirectory> (comp.parent);
@@ -837,6 +840,9 @@ namespace Wixl {
             if (reg.Root != null)
                 reg_root = reg.Root;
 
+            if (reg_root == null || reg_root == "" || reg_key == null)
+                throw new Wixl.Error.FAILED ("a registry value needs a Root and a Key");
+
             var value = reg.Value;
             var t = RegistryValueType.from_string (reg.Type);
             var r = RegistryRoot.from_string (reg_root.down ());
@@ -912,6 +918,9 @@ namespace Wixl {
             file.DiskId = file.DiskId ?? "1";
             return_if_fail (file.DiskId == "1");
 
+            if (file.Name == null && file.Source == null)
+                throw new Wixl.Error.FAILED ("file %s has neither Source nor Name".printf (file.Id));
+
             var name = file.path_name ();
             var source = file.Source ?? name;
             var comp = file.parent as WixComponent;
@@ -984,7 +993,8 @@ namespace Wixl {
         }
 
         public override void visit_condition (WixCondition condition) throws GLib.Error {
-            return_if_fail (condition.children.length () == 1);
+            if (condition.children.length () != 1)
+                throw new Wixl.Error.FAILED ("a condition needs one text");
             var text = condition.children.first ().data as WixText;
 
             db.table_launch_condition.add (text.Text.strip(), condition.Message);
@@ -1376,6 +1386,9 @@ namespace Wixl {
             } else
                 throw new Wixl.Error.FAILED ("Unsupported CustomAction");
 
+            if (source == null)
+                throw new Wixl.Error.FAILED ("custom action %s has no source".printf (action.Id));
+
             if (action.Execute == "firstSequence")
                 type |= CustomActionType.FIRST_SEQUENCE;
             else if (action.Execute == "oncePerProcess")
@@ -1414,6 +1427,9 @@ namespace Wixl {
         public override void visit_major_upgrade (WixMajorUpgrade major) throws GLib.Error {
             var product = major.parent as WixProduct;
 
+            if (product.UpgradeCode == null)
+                throw new Wixl.Error.FAILED ("MajorUpgrade needs the UpgradeCode of the product");
+
             var property = "WIX_DOWNGRADE_DETECTED";
             if (major.AllowDowngrades == "yes") {
                 db.table_upgrade.add (get_uuid (product.UpgradeCode), product.Version, "", UpgradeAttribute.MIGRATE_FEATURES, property);
diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 837fb58..81c4a72 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -913,7 +913,7 @@ namespace Wixl {
             sql_insert = "INSERT INTO `RegLocator` (`Signature_`, `Root`, `Key`, `Name`, `Type`) VALUES (?, ?, ?, ?, ?)";
         }
 
-        public void add (string Signature, int Root, string Key, string Name, int Type) throws GLib.Error {
+        public void add (string Signature, int Root, string Key, string? Name, int Type) throws GLib.Error {
             var rec = new Libmsi.Record (5);
             if (!rec.set_string (1, Signature) ||
                 !rec.set_int (2, Root) ||
diff --git a/tools/wixl/wix.vala b/tools/wixl/wix.vala
index 2bfb362..13da7a6 100644
--- a/tools/wixl/wix.vala
+++ b/tools/wixl/wix.vala
@@ -191,6 +191,10 @@ namespace Wixl {
             return null;
         }
 
+        public virtual string[] required_attributes () {
+            return {};
+        }
+
         string get_attribute_content (Xml.Attr *attr) {
             if (attr->children == null)
                 return "";
@@ -210,6 +214,10 @@ namespace Wixl {
                 throw new Error.FAILED ("%s: invalid node %s".printf (name, node->name));
 
             load_properties_from_node (node);
+            foreach (var attribute in required_attributes ()) {
+                if (node->has_prop (attribute) == null)
+                    throw new Error.FAILED ("%s: attribute %s is required".printf (name, attribute));
+            }
             for (var child = node->children; child != null; child = child->next) {
                 switch (child->type) {
                 case Xml.ElementType.COMMENT_NODE:
@@ -280,6 +288,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Id" };
+        }
+
         public string Directory { get; set; }
 
     }
@@ -310,6 +322,10 @@ namespace Wixl {
             name = "RegistrySearch";
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "Root", "Key", "Type" };
+        }
+
         public string Root { get; set; }
         public string Key { get; set; }
         public string Type { get; set; }
@@ -330,6 +346,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Id" };
+        }
+
         public string Value { get; set; }
         public string Secure { get; set; }
 
@@ -379,6 +399,10 @@ namespace Wixl {
             name = "Icon";
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "SourceFile" };
+        }
+
         public string SourceFile { get; set; }
 
         public File file;
@@ -393,6 +417,10 @@ namespace Wixl {
             name = "Shortcut";
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "Name" };
+        }
+
         public string Directory { get; set; }
         public string Name { get; set; }
         public string IconIndex { get; set; }
@@ -432,6 +460,10 @@ namespace Wixl {
             add_child_types (child_types, { typeof (WixShortcut) });
         }
 
+        public override string[] required_attributes () {
+            return { "Id" };
+        }
+
         public string DiskId { get; set; }
         public string Source { get; set; }
         public string Name { get; set; }
@@ -455,6 +487,10 @@ namespace Wixl {
             name = "IniFile";
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "Action", "Name", "Section", "Key" };
+        }
+
         public string Action { get; set; }
         public string Directory { get; set; }
         public string Key { get; set; }
@@ -473,6 +509,10 @@ namespace Wixl {
             name = "RegistryValue";
         }
 
+        public override string[] required_attributes () {
+            return { "Type", "Value" };
+        }
+
         public string Root { get; set; }
         public string Key { get; set; }
         public string Type { get; set; }
@@ -493,6 +533,10 @@ namespace Wixl {
             name = "RemoveFolder";
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "On" };
+        }
+
         public string On { get; set; }
 
         public override void accept (WixNodeVisitor visitor) throws GLib.Error {
@@ -511,6 +555,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Id" };
+        }
+
         public string Level { get; set; }
         public string Title { get; set; }
         public string Description { get; set; }
@@ -563,6 +611,10 @@ namespace Wixl {
             name = "Condition";
         }
 
+        public override string[] required_attributes () {
+            return { "Message" };
+        }
+
         public string Message { get; set; }
 
         public override void accept (WixNodeVisitor visitor) throws GLib.Error {
@@ -575,6 +627,10 @@ namespace Wixl {
             name = "MIME";
         }
 
+        public override string[] required_attributes () {
+            return { "ContentType" };
+        }
+
         public string Advertise { get; set; }
         public string ContentType { get; set; }
         public string Default { get; set; }
@@ -613,6 +669,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "Name" };
+        }
+
         public string Name { get; set; }
         public string Start { get; set; }
         public string Stop { get; set; }
@@ -631,6 +691,10 @@ namespace Wixl {
             name = "ServiceDependency";
         }
 
+        public override string[] required_attributes () {
+            return { "Id" };
+        }
+
         public string Group { get; set; }
 
         public override void accept (WixNodeVisitor visitor) throws GLib.Error {
@@ -647,6 +711,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "Name", "Type", "Start", "ErrorControl" };
+        }
+
         public string Name { get; set; }
         public string DisplayName { get; set; }
         public string Type { get; set; }
@@ -673,6 +741,10 @@ namespace Wixl {
             name = "Verb";
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "TargetFile" };
+        }
+
         public string Command { get; set; }
         public string TargetFile { get; set; }
         public string Argument { get; set; }
@@ -693,6 +765,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Id" };
+        }
+
         public string ContentType { get; set; }
         public string Advertise { get; set; }
 
@@ -711,6 +787,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Id" };
+        }
+
         public string Description { get; set; }
         public string Advertise { get; set; }
 
@@ -738,6 +818,8 @@ namespace Wixl {
         public override void load (Xml.Node *node) throws Wixl.Error {
             base.load (node);
             name = node->name;
+            if (name == "Custom" && Action == null || name == "Show" && Dialog == null)
+                throw new Error.FAILED ("%s: attribute %s is required".printf (name, name == "Show" ? "Dialog" : "Action"));
         }
 
         public override void accept (WixNodeVisitor visitor) throws GLib.Error {
@@ -946,6 +1028,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Id" };
+        }
+
         public override void accept (WixNodeVisitor visitor) throws GLib.Error {
             base.accept (visitor);
             visitor.visit_upgrade (this);
@@ -957,6 +1043,10 @@ namespace Wixl {
             name = "UpgradeVersion";
         }
 
+        public override string[] required_attributes () {
+            return { "Property" };
+        }
+
         public string Minimum { get; set; }
         public string Maximum { get; set; }
         public string IncludeMinimum { get; set; }
@@ -975,6 +1065,10 @@ namespace Wixl {
             name = "CustomAction";
         }
 
+        public override string[] required_attributes () {
+            return { "Id" };
+        }
+
         public string Property { get; set; }
         public string Execute { get; set; }
         public string FileKey { get; set; }
@@ -997,6 +1091,10 @@ namespace Wixl {
             name = "Binary";
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "SourceFile" };
+        }
+
         public string SourceFile { get; set; }
 
         public File file;
@@ -1061,6 +1159,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "Name", "Version", "Manufacturer", "Language" };
+        }
+
         public string Name { get; set; }
         public string UpgradeCode { get; set; }
         public string Language { get; set; }
@@ -1082,6 +1184,10 @@ namespace Wixl {
             name = "Media";
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "Cabinet" };
+        }
+
         public string Cabinet { get; set; }
         public string EmbedCab { get; set; }
         public string DiskPrompt { get; set; }
@@ -1102,6 +1208,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Key" };
+        }
+
         public string Key { get; set; }
         public string Root { get; set; }
     }
@@ -1124,6 +1234,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "Guid" };
+        }
+
         public string Guid { get; set; }
         public string? Win64 { get; set; }
         public WixKeyElement? key;
@@ -1156,6 +1270,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Id" };
+        }
+
         public string Name { get; set; }
 
         public override void accept (WixNodeVisitor visitor) throws GLib.Error {
@@ -1179,6 +1297,10 @@ namespace Wixl {
         public class Type ref_type;
         public G? resolved;
 
+        public override string[] required_attributes () {
+            return { "Id" };
+        }
+
         // protected WixElementRef () {
         //     // FIXME vala: class init/construct fails, construct fails...
         //     ref_type = typeof (G);
@@ -1246,6 +1368,10 @@ namespace Wixl {
             name = "UIText";
         }
 
+        public override string[] required_attributes () {
+            return { "Id" };
+        }
+
         public string Value { get; set; }
 
         public override void accept (WixNodeVisitor visitor) throws GLib.Error {
@@ -1271,6 +1397,10 @@ namespace Wixl {
             name = "TextStyle";
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "FaceName", "Size" };
+        }
+
         public string Blue { get; set; }
         public string Bold { get; set; }
         public string FaceName { get; set; }
@@ -1295,6 +1425,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "Width", "Height" };
+        }
+
         public string CustomPalette { get; set; }
         public string ErrorDialog { get; set; }
         public string Height { get; set; }
@@ -1346,6 +1480,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Id", "Type" };
+        }
+
         public string Bitmap { get; set; }
         public string Cancel { get; set; }
         public string CheckBoxValue { get; set; }
@@ -1430,6 +1568,10 @@ namespace Wixl {
             });
         }
 
+        public override string[] required_attributes () {
+            return { "Property" };
+        }
+
         public string Property { get; set; }
         public int order = 1;
     }
@@ -1439,6 +1581,10 @@ namespace Wixl {
             name = "RadioButton";
         }
 
+        public override string[] required_attributes () {
+            return { "Value", "X", "Y", "Width", "Height" };
+        }
+
         public string Height { get; set; }
         public string Help { get; set; }
         public string Text { get; set; }
@@ -1457,6 +1603,10 @@ namespace Wixl {
             name = "Subscribe";
         }
 
+        public override string[] required_attributes () {
+            return { "Event", "Attribute" };
+        }
+
         public string Attribute { get; set; }
         public string Event { get; set; }
 
@@ -1470,6 +1620,10 @@ namespace Wixl {
             name = "ProgressText";
         }
 
+        public override string[] required_attributes () {
+            return { "Action" };
+        }
+
         public string Action { get; set; }
         public string Template { get; set; }
 
-- 
2.43.0


From 0a2d893fa5fdd4e5d79e30cd61c86d4a680013c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 085/122] fix: wixl added a backslash to the key of values
 without a key of their own

---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 2f110f2..7bb3725 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -827,7 +827,7 @@ namespace Wixl {
             if (reg.parent is WixRegistryKey) {
                 var regkey = reg.parent as WixRegistryKey;
                 comp = regkey.parent as WixComponent;
-                reg_key = regkey.Key + "\\" + reg.Key;
+                reg_key = reg.Key != null ? regkey.Key + "\\" + reg.Key : regkey.Key;
                 reg_root = regkey.Root;
             } else if (reg.parent is WixComponent) {
                 comp = reg.parent as WixComponent;
-- 
2.43.0


From cc669bbb20d5b41dea2a7e2e6ca96ea9eb2f3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 086/122] fix: wixl registered verbs and extensions with
 attributes they lack

A verb without an Argument got the argument (null), an extension without
a ContentType an empty one.
---
 tools/wixl/builder.vala | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 7bb3725..e9d224c 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1098,12 +1098,16 @@ namespace Wixl {
 
             return_if_fail (!parse_yesno (progid.Advertise));
 
-            var regid = generate_id ("reg", 3,
+            string regid;
+
+            if (ext.ContentType != null) {
+                regid = generate_id ("reg", 3,
                                      comp.Id,
                                      ext.Id,
                                      "Content Type");
 
-            db.table_registry.add (regid, 0, "." + ext.Id, comp.Id, "Content Type", ext.ContentType);
+                db.table_registry.add (regid, 0, "." + ext.Id, comp.Id, "Content Type", ext.ContentType);
+            }
 
             regid = generate_id ("reg", 2,
                                  comp.Id,
@@ -1131,8 +1135,11 @@ namespace Wixl {
                                  comp.Id,
                                  key);
 
-            db.table_registry.add (regid, 0, key, comp.Id, null,
-                                   "\"[#%s]\" %s".printf (verb.TargetFile, verb.Argument));
+            var command = "\"[#%s]\"".printf (verb.TargetFile);
+            if (verb.Argument != null)
+                command += " " + verb.Argument;
+
+            db.table_registry.add (regid, 0, key, comp.Id, null, command);
         }
 
         public override void visit_mime (WixMIME mime) throws GLib.Error {
-- 
2.43.0


From 2706922aa986c25e2f5c8897603e4cf351680307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 087/122] fix: wixl left out verbs other than open and
 advertised ProgIds

It now writes the former and refuses the latter.
---
 tools/wixl/builder.vala | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index e9d224c..6155a98 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1082,7 +1082,8 @@ namespace Wixl {
         }
 
         public override void visit_progid (WixProgId progid) throws GLib.Error {
-            return_if_fail (!parse_yesno (progid.Advertise));
+            if (parse_yesno (progid.Advertise))
+                throw new Wixl.Error.FAILED ("advertised ProgId %s is not supported".printf (progid.Id));
 
             var comp = progid.parent as WixComponent;
             var regid = generate_id ("reg", 2,
@@ -1096,8 +1097,6 @@ namespace Wixl {
             var progid = ext.parent as WixProgId;
             var comp = progid.parent as WixComponent;
 
-            return_if_fail (!parse_yesno (progid.Advertise));
-
             string regid;
 
             if (ext.ContentType != null) {
@@ -1117,18 +1116,16 @@ namespace Wixl {
         }
 
         public override void visit_verb (WixVerb verb) throws GLib.Error {
-            return_if_fail (verb.Id == "open");
-
             var ext = verb.parent as WixExtension;
             var progid = ext.parent as WixProgId;
             var comp = progid.parent as WixComponent;
 
-            var key = progid.Id + "\\shell\\open";
+            var key = progid.Id + "\\shell\\" + verb.Id;
             var regid = generate_id ("reg", 2,
                                      comp.Id,
                                      key);
 
-            db.table_registry.add (regid, 0, key, comp.Id, null, "Open");
+            db.table_registry.add (regid, 0, key, comp.Id, null, verb.Id == "open" ? "Open" : verb.Command);
 
             key += "\\command";
             regid = generate_id ("reg", 2,
@@ -1147,8 +1144,6 @@ namespace Wixl {
             var progid = ext.parent as WixProgId;
             var comp = progid.parent as WixComponent;
 
-            return_if_fail (!parse_yesno (progid.Advertise));
-
             var key = "MIME\\Database\\Content Type\\" + mime.ContentType;
             var regid = generate_id ("reg", 3,
                                      comp.Id,
-- 
2.43.0


From 5603c95efbdb474b70663be47bfc08a38db22b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 088/122] fix: wixl left out shortcuts of files that name no
 directory

They are in the directory of their component; those of components in a
component group were refused, and those in no feature crashed it.
---
 tools/wixl/builder.vala | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 6155a98..1cfddb7 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -360,6 +360,8 @@ namespace Wixl {
                 if (sc.Target != null)
                     continue;
                 var component = sc.get_component ();
+                if (component.in_feature.length () == 0)
+                    throw new Wixl.Error.FAILED ("shortcut %s belongs to no feature".printf (sc.Id));
                 var feature = component.in_feature.first ().data;
                 MsiTableShortcut.set_target (sc.record, feature.Id);
             }
@@ -967,10 +969,8 @@ namespace Wixl {
                 message ("unimplemented");
 
             var component = shortcut.get_component ();
-            if (directory == null && shortcut.parent is WixComponent) {
-                var dir = resolve<WixDirectory> (component.parent);
-                directory = dir.Id;
-            }
+            if (directory == null)
+                directory = get_directory (component).Id;
 
             var rec = db.table_shortcut.add (shortcut.Id, directory, shortcut.Name, component.Id);
             shortcut.record = rec;
-- 
2.43.0


From b72ea53d124408b803b90231d68c4f4c196fa1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 089/122] fix: wixl ignored the Secure attribute of properties

---
 tools/wixl/builder.vala | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 1cfddb7..0321cea 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -463,6 +463,9 @@ namespace Wixl {
         }
 
         public override void visit_property (WixProperty prop) throws GLib.Error {
+            if (parse_yesno (prop.Secure))
+                secureProperties += prop.Id;
+
             if (prop.Value == null)
                 return;
 
-- 
2.43.0


From afb2d2cd7d53972839603ce399cb199ebbb05edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 090/122] fix: wixl ignored the Directory attribute of
 CreateFolder

---
 tools/wixl/builder.vala | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 0321cea..740ad46 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1158,8 +1158,8 @@ namespace Wixl {
 
         public override void visit_create_folder (WixCreateFolder folder) throws GLib.Error {
             var component = folder.parent as WixComponent;
-            var dir = get_directory (component);
-            db.table_create_folder.add (dir.Id, component.Id);
+            var directory = folder.Directory ?? get_directory (component).Id;
+            db.table_create_folder.add (directory, component.Id);
         }
 
         public override void visit_fragment (WixFragment fragment) throws GLib.Error {
-- 
2.43.0


From 2a8f3cd2daedff72d087a80906e6478db31671ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 091/122] fix: wixl took references to what no file defines

to directories, icons, binaries and the target files of verbs. It crashed
on a component group whose directory is not defined.
---
 tools/wixl/builder.vala | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 740ad46..513ab52 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -646,6 +646,8 @@ namespace Wixl {
                 break;
             }
 
+            check_reference<WixDirectory> ("directory", feature.ConfigurableDirectory);
+
             string? parent = (feature.parent is WixFeature) ? feature.parent.Id : null;
             int level = feature.Level != null ? int.parse (feature.Level) : 1;
 
@@ -744,6 +746,11 @@ namespace Wixl {
                 warning ("unhandled parent type %s", @ref.parent.name);
         }
 
+        void check_reference<G> (string kind, string? Id) throws GLib.Error {
+            if (Id != null && find_element<G> (Id) == null)
+                throw new Wixl.Error.FAILED ("%s reference '%s' not defined".printf (kind, Id));
+        }
+
         enum InstallMode {
             INSTALL = 1,
             UNINSTALL,
@@ -759,6 +766,7 @@ namespace Wixl {
                 var group = comp.parent as WixComponentGroup;
                 if (group.Directory == null)
                     throw new Wixl.Error.FAILED ("component group %s has no Directory".printf (group.Id));
+                check_reference<WixDirectory> ("directory", group.Directory);
                 return find_element<WixDirectory> (group.Directory);
             } else if (comp.parent is WixDirectory || comp.parent is WixDirectoryRef) {
                 return resolve<WixDirectory> (comp.parent);
@@ -975,6 +983,8 @@ namespace Wixl {
             if (directory == null)
                 directory = get_directory (component).Id;
 
+            check_reference<WixIcon> ("icon", shortcut.Icon);
+
             var rec = db.table_shortcut.add (shortcut.Id, directory, shortcut.Name, component.Id);
             shortcut.record = rec;
 
@@ -1135,6 +1145,8 @@ namespace Wixl {
                                  comp.Id,
                                  key);
 
+            check_reference<WixFile> ("file", verb.TargetFile);
+
             var command = "\"[#%s]\"".printf (verb.TargetFile);
             if (verb.Argument != null)
                 command += " " + verb.Argument;
@@ -1159,6 +1171,7 @@ namespace Wixl {
         public override void visit_create_folder (WixCreateFolder folder) throws GLib.Error {
             var component = folder.parent as WixComponent;
             var directory = folder.Directory ?? get_directory (component).Id;
+            check_reference<WixDirectory> ("directory", directory);
             db.table_create_folder.add (directory, component.Id);
         }
 
@@ -1393,6 +1406,8 @@ namespace Wixl {
 
             if (source == null)
                 throw new Wixl.Error.FAILED ("custom action %s has no source".printf (action.Id));
+            if (type == CustomActionType.DLL_BINARY || type == CustomActionType.JSCRIPT_BINARY)
+                check_reference<WixBinary> ("binary", source);
 
             if (action.Execute == "firstSequence")
                 type |= CustomActionType.FIRST_SEQUENCE;
-- 
2.43.0


From 4ea672183fceb61d645c172ff864b2acc7712d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 092/122] fix: wixl crashed on component groups that refer to
 themselves

---
 tools/wixl/builder.vala | 5 +++++
 tools/wixl/wix.vala     | 1 +
 2 files changed, 6 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 513ab52..f6f12e6 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -713,6 +713,10 @@ namespace Wixl {
         }
 
         void feature_add_component_group (WixFeature feature, WixComponentGroup group) throws GLib.Error {
+            if (group.in_use)
+                throw new Wixl.Error.FAILED ("component group %s refers to itself".printf (group.Id));
+
+            group.in_use = true;
             foreach (var node in group.children) {
                 var child = node as WixElement;
                 if (child is WixComponentGroupRef) {
@@ -721,6 +725,7 @@ namespace Wixl {
                     feature_add_component (feature, resolve<WixComponent> (child));
                 }
             }
+            group.in_use = false;
         }
 
         public override void visit_component_ref (WixComponentRef ref) throws GLib.Error {
diff --git a/tools/wixl/wix.vala b/tools/wixl/wix.vala
index 13da7a6..789030c 100644
--- a/tools/wixl/wix.vala
+++ b/tools/wixl/wix.vala
@@ -293,6 +293,7 @@ namespace Wixl {
         }
 
         public string Directory { get; set; }
+        public bool in_use;
 
     }
 
-- 
2.43.0


From c5df168ae56420e4a0b914d5219da0845d7790f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 093/122] fix: wixl left out the files of any media but the
 first

and those of media that are not defined, which it now refuses.
---
 tools/wixl/builder.vala | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index f6f12e6..b9d149f 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -352,6 +352,16 @@ namespace Wixl {
 
                 db.table_media.set_last_sequence (m.record, sequence);
             }
+
+            foreach (var rec in db.table_file.records) {
+                var f = rec.get_data<WixFile> ("wixfile");
+                var component = f.parent as WixComponent;
+                var found = component.in_feature.length () == 0;
+                foreach (var m in medias)
+                    found = found || f.DiskId == m.Id;
+                if (!found)
+                    throw new Wixl.Error.FAILED ("file %s is on media %s which is not defined".printf (f.Id, f.DiskId));
+            }
         }
 
         private void shortcut_target () throws GLib.Error {
@@ -934,7 +944,6 @@ namespace Wixl {
 
         public override void visit_file (WixFile file) throws GLib.Error {
             file.DiskId = file.DiskId ?? "1";
-            return_if_fail (file.DiskId == "1");
 
             if (file.Name == null && file.Source == null)
                 throw new Wixl.Error.FAILED ("file %s has neither Source nor Name".printf (file.Id));
-- 
2.43.0


From dea2fb437ee5dd80aa971ba59c911c7d51b98d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 094/122] fix: wixl wrote cabinets that are not embedded
 nowhere

They belong beside the package.
---
 tools/wixl/builder.vala | 2 ++
 tools/wixl/msi.vala     | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index b9d149f..70aafcf 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -349,6 +349,8 @@ namespace Wixl {
                 var input = new MemoryInputStream.from_data (output.get_data ()[0:output.data_size], null);
                 if (parse_yesno (m.EmbedCab))
                     db.table_streams.add (m.Cabinet, input, output.data_size);
+                else
+                    db.cabinets.insert (m.Cabinet, new Bytes (output.get_data ()[0:output.data_size]));
 
                 db.table_media.set_last_sequence (m.record, sequence);
             }
diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 81c4a72..45ca452 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -1138,6 +1138,9 @@ namespace Wixl {
 
         public HashTable<string, MsiTable> tables;
 
+        // cabinets beside the package, by their names
+        public HashTable<string, Bytes> cabinets = new HashTable<string, Bytes> (str_hash, str_equal);
+
         int get_default_version () {
             if (arch == Arch.X86)
                 return 100;
@@ -1286,6 +1289,10 @@ namespace Wixl {
             while (it.next (out name, out table))
                 table.create (db);
 
+            var dir = Path.get_dirname (filename);
+            foreach (var cabinet in cabinets.get_keys ())
+                FileUtils.set_data (Path.build_filename (dir, cabinet), cabinets.lookup (cabinet).get_data ());
+
             db.commit ();
         }
     }
-- 
2.43.0


From 2b9b0062326b6498f9e3e1877401fa3eff94f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 095/122] fix: wixl did not write the upgrade code in upper
 case

Installers compare it to the Upgrade table, which has it in upper case.
---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 70aafcf..c4b87b6 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -424,7 +424,7 @@ namespace Wixl {
             db.table_property.add ("ProductName", product.Name);
             db.table_property.add ("ProductVersion", product.Version);
             if (product.UpgradeCode != null)
-                db.table_property.add ("UpgradeCode", add_braces (product.UpgradeCode));
+                db.table_property.add ("UpgradeCode", add_braces (product.UpgradeCode).up ());
         }
 
         [Flags]
-- 
2.43.0


From 214b0bdd2469831adbea39abe720bac07cca43b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 096/122] fix: wixl gave different registry rows the same
 identifier

if their keys or names had a | in them, or an extension had the name of
a ProgId, so that the package could not be built.
---
 tools/wixl/builder.vala | 4 ++--
 tools/wixl/util.vala    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index c4b87b6..6c715ac 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1131,7 +1131,7 @@ namespace Wixl {
             if (ext.ContentType != null) {
                 regid = generate_id ("reg", 3,
                                      comp.Id,
-                                     ext.Id,
+                                     "." + ext.Id,
                                      "Content Type");
 
                 db.table_registry.add (regid, 0, "." + ext.Id, comp.Id, "Content Type", ext.ContentType);
@@ -1139,7 +1139,7 @@ namespace Wixl {
 
             regid = generate_id ("reg", 2,
                                  comp.Id,
-                                 ext.Id);
+                                 "." + ext.Id);
 
             db.table_registry.add (regid, 0, "." + ext.Id, comp.Id, null, progid.Id);
         }
diff --git a/tools/wixl/util.vala b/tools/wixl/util.vala
index 689b284..1ff11fb 100644
--- a/tools/wixl/util.vala
+++ b/tools/wixl/util.vala
@@ -84,7 +84,7 @@ namespace Wixl {
             string? val = l.arg ();
             if (val == null)
                 continue;
-            args[i] = val; // FIXME: misc vala bug when +=
+            args[i] = val.replace ("^", "^^").replace ("|", "^|"); // FIXME: misc vala bug when +=
             i += 1;
         }
         var data = string.joinv ("|", args);
-- 
2.43.0


From 1a4f19d973c0466f55087066594b93629bd54eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 097/122] fix: wixl changed the Display numbers 1 and 2 of
 features

It took them for the values of collapse and expand in its own enum.
---
 tools/wixl/builder.vala | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 6c715ac..ea76bfe 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -566,15 +566,6 @@ namespace Wixl {
 
         }
 
-        enum FeatureDisplay {
-            HIDDEN = 0,
-            EXPAND,
-            COLLAPSE;
-
-            public static FeatureDisplay from_string(string s) throws GLib.Error {
-                return enum_from_string<FeatureDisplay> (s);
-            }
-        }
         WixFeature? feature_root;
         int feature_display;
 
@@ -638,24 +629,21 @@ namespace Wixl {
             if (state != VisitState.ENTER)
                 return;
 
-            int display = FeatureDisplay.COLLAPSE;
-            if (feature.Display != null) {
-                try {
-                    display = FeatureDisplay.from_string (feature.Display);
-                } catch (GLib.Error error) {
-                    display = int.parse (feature.Display);
-                    if (display != 0)
-                        feature_display = display;
-                }
-            }
-
-            switch (display) {
-            case FeatureDisplay.COLLAPSE:
+            int display = 0;
+            switch (feature.Display ?? "collapse") {
+            case "collapse":
                 display = feature_display = (feature_display | 1) + 1;
                 break;
-            case FeatureDisplay.EXPAND:
+            case "expand":
                 display = feature_display = (feature_display + 1) | 1;
                 break;
+            case "hidden":
+                break;
+            default:
+                display = int.parse (feature.Display);
+                if (display != 0)
+                    feature_display = display;
+                break;
             }
 
             check_reference<WixDirectory> ("directory", feature.ConfigurableDirectory);
-- 
2.43.0


From 95a3e34b81c1b0c1b198669e7ab9e0d61685f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 098/122] fix: wixl stopped at CDATA sections

---
 tools/wixl/wix.vala | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/wix.vala b/tools/wixl/wix.vala
index 789030c..04b04f0 100644
--- a/tools/wixl/wix.vala
+++ b/tools/wixl/wix.vala
@@ -223,7 +223,13 @@ namespace Wixl {
                 case Xml.ElementType.COMMENT_NODE:
                     continue;
                 case Xml.ElementType.TEXT_NODE:
-                    add_child (new WixText (child->content));
+                case Xml.ElementType.CDATA_SECTION_NODE:
+                    // the parts of a text belong together
+                    var text = children.length () > 0 ? children.last ().data as WixText : null;
+                    if (text != null)
+                        text.Text += child->content;
+                    else
+                        add_child (new WixText (child->content));
                     continue;
                 case Xml.ElementType.ELEMENT_NODE:
                     var t = child_types->lookup (child->name);
-- 
2.43.0


From a22307f4d5e89fd2648ff5a17bc4597ce943a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 099/122] fix: wixl took references to undefined directories
 that hold nothing

---
 tools/wixl/builder.vala | 4 ++++
 tools/wixl/wix.vala     | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index ea76bfe..96d45e2 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -495,6 +495,10 @@ namespace Wixl {
             medias.append (media);
         }
 
+        public override void visit_directory_ref (WixDirectoryRef ref) throws GLib.Error {
+            check_reference<WixDirectory> ("directory", @ref.Id);
+        }
+
         public override void visit_directory (WixDirectory dir) throws GLib.Error {
             var defaultdir = dir.Name ?? ".";
 
diff --git a/tools/wixl/wix.vala b/tools/wixl/wix.vala
index 04b04f0..24a3084 100644
--- a/tools/wixl/wix.vala
+++ b/tools/wixl/wix.vala
@@ -37,6 +37,7 @@ namespace Wixl {
         public abstract void visit_property (WixProperty prop) throws GLib.Error;
         public abstract void visit_media (WixMedia media) throws GLib.Error;
         public abstract void visit_directory (WixDirectory dir) throws GLib.Error;
+        public abstract void visit_directory_ref (WixDirectoryRef ref) throws GLib.Error;
         public abstract void visit_component (WixComponent comp, VisitState state) throws GLib.Error;
         public abstract void visit_feature (WixFeature feature, VisitState state) throws GLib.Error;
         public abstract void visit_component_ref (WixComponentRef ref) throws GLib.Error;
@@ -1330,6 +1331,11 @@ namespace Wixl {
             });
         }
 
+        public override void accept (WixNodeVisitor visitor) throws GLib.Error {
+            base.accept (visitor);
+            visitor.visit_directory_ref (this);
+        }
+
         public override string full_path (WixResolver r) throws GLib.Error {
             return ((WixElement)r.resolve<WixDirectory> (this)).full_path (r);
         }
-- 
2.43.0


From c4b4594a212d2ebabd2c6fa0a955cb7f4b66b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 100/122] fix: wixl scheduled actions against their constraints

---
 tools/wixl/builder.vala |   5 ++
 tools/wixl/msi.vala     | 166 ++++++++++++++++++++++++----------------
 2 files changed, 104 insertions(+), 67 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 96d45e2..9bf8acc 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1071,6 +1071,8 @@ namespace Wixl {
             }
 
             node.action = action;
+            node.scheduled = true;
+            node.condition = null;
 
             if (action.OnExit != null) {
                 if (action.OnExit == "success") node.sequence = -1;
@@ -1080,6 +1082,8 @@ namespace Wixl {
             } else {
                 if (action.Sequence != null) {
                     node.sequence = int.parse (action.Sequence);
+                } else if (action.After != null || action.Before != null) {
+                    node.sequence = MsiTableSequence.Action.UNSET;
                 }
 
                 if (action.After != null) {
@@ -1483,6 +1487,7 @@ namespace Wixl {
             var table = db.table_install_execute_sequence;
             var node = table.get_action ("RemoveExistingProducts");
             warn_if_fail (node.action == null);
+            node.scheduled = true;
             node.add_dep (table.get_action ("InstallValidate"));
         }
 
diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 45ca452..51f0417 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -342,96 +342,124 @@ namespace Wixl {
         public class Action {
             public string name;
             public string? condition;
-            public int sequence = -999;
+            public const int UNSET = -999;
+            public int sequence = UNSET;
             public WixAction? action;
 
-            public bool visited = false;
-            public bool incoming_deps = false;
+            // whether anything puts it into the table
+            public bool scheduled = false;
+            bool visiting = false;
 
-            // Use it as a set, so value is not refcounted please vala
-            public HashTable<Action, Action*> depends_on = new HashTable<Action, Action*> (direct_hash, direct_equal);
+            // the actions before and after this one
+            List<weak Action> depends_on;
+            List<weak Action> needed_by;
+
+            // what follows has to fit between this one and its limit
+            public int limit = int.MAX;
+
+            public bool is_fixed { get { return sequence != UNSET; } }
+
+            public bool only_before { get { return depends_on.length () == 0 && limit != int.MAX; } }
 
             public void add_dep (Action a) {
-                hash_table_add (depends_on, a);
-                a.incoming_deps = true;
+                depends_on.append (a);
+                a.needed_by.append (this);
             }
 
-            public int dep_max() {
-                int ret = -1;
-                var it = HashTableIter <Action, Action*> (depends_on);
-                Action dep;
-                while (it.next (null, out dep))
+            public int dep_max () {
+                int ret = 0;
+                foreach (var dep in depends_on)
                     if (dep.sequence > ret)
                         ret = dep.sequence;
                 return ret;
             }
-        }
 
-        HashTable<string, Action> actions = new HashTable<string, Action> (str_hash, str_equal);
-
-        void sort_topological_visit (Action action, ref List<Action> sorted) {
-            if (action.visited)
-                return;
-
-            action.visited = true;
-
-            Action dep;
-            var it = HashTableIter <Action, Action*> (action.depends_on);
-            while (it.next (null, out dep))
-                sort_topological_visit (dep, ref sorted);
+            // visits the actions that have no number yet, those they depend on first
+            public void sort (ref List<weak Action> sorted) throws GLib.Error {
+                if (is_fixed || sorted.index (this) != -1)
+                    return;
+                if (visiting)
+                    throw new Wixl.Error.FAILED ("action %s is scheduled before itself".printf (name));
+
+                visiting = true;
+                foreach (var dep in depends_on)
+                    dep.sort (ref sorted);
+                sorted.append (this);
+            }
 
-            sorted.append (action);
-        }
+            public void set_limit () {
+                foreach (var next in needed_by) {
+                    if (next.is_fixed)
+                        limit = int.min (limit, next.sequence);
+                    else if (next.limit != int.MAX)
+                        limit = int.min (limit, next.limit - 1);
+                }
+            }
 
-        // before sorting topologically, sort the actions so that the
-        // one with the least max sequence dependency comes first.
-        List<weak Action> sorted_actions() {
-            CompareFunc<Action> cmp = (a, b) => {
-                if (a.sequence == b.sequence) {
-                    var a_dep = a.dep_max();
-                    var b_dep = b.dep_max();
-                    return a_dep - b_dep;
+            public void check (string table) throws GLib.Error {
+                foreach (var dep in depends_on) {
+                    if (!dep.scheduled)
+                        throw new Wixl.Error.FAILED ("%s: action %s is not scheduled".printf (table, dep.name));
+                    if (dep.sequence >= sequence)
+                        throw new Wixl.Error.FAILED ("%s: action %s can't be after %s".printf (table, name, dep.name));
                 }
-                return a.sequence - b.sequence;
-            };
-            var list = actions.get_values ();
-            list.sort(cmp);
-            return list;
+                if (sequence == 0 || sequence < 0 && only_before)
+                    throw new Wixl.Error.FAILED ("%s: no number is left for action %s".printf (table, name));
+                if (!scheduled)
+                    throw new Wixl.Error.FAILED ("%s: action %s is not scheduled".printf (table, name));
+            }
         }
 
-        List<Action> sort_topological () {
-            List<Action> sorted = null;
-
-            foreach (var action in sorted_actions()) {
-                if (action.incoming_deps)
-                    continue;
-                sort_topological_visit (action, ref sorted);
-            }
+        HashTable<string, Action> actions = new HashTable<string, Action> (str_hash, str_equal);
 
+        // the actions that have no number yet, those that have to fit
+        // below the least number first
+        List<weak Action> sort_actions () throws GLib.Error {
+            var names = actions.get_keys ();
+            names.sort (strcmp);
+
+            List<weak Action> sorted = null;
+            foreach (var n in names)
+                actions[n].sort (ref sorted);
+
+            sorted.reverse ();
+            foreach (var action in sorted)
+                action.set_limit ();
+            sorted.reverse ();
+
+            CompareFunc<weak Action> cmp = (a, b) => {
+                if (a.limit != b.limit)
+                    return a.limit < b.limit ? -1 : 1;
+                return (a.only_before ? 1 : 0) - (b.only_before ? 1 : 0);
+            };
+            sorted.sort (cmp);
             return sorted;
         }
 
-        void add_implicit_deps () {
-            Action? prev = null;
-            foreach (var a in sorted_actions()) {
-                if (a.sequence == -999)
-                    continue;
-                if (prev != null)
-                    a.add_dep (prev);
-                prev = a;
-            }
-        }
-
         public void add_sorted_actions () throws GLib.Error {
-            add_implicit_deps ();
-            var sorted = sort_topological ();
+            var unnumbered = sort_actions ();
+            var taken = new HashTable<int, bool> (direct_hash, direct_equal);
+            foreach (var action in actions.get_values ())
+                if (action.is_fixed)
+                    taken[action.sequence] = true;
+
+            foreach (var action in unnumbered) {
+                var sequence = action.dep_max () + 1;
+                if (action.only_before) {
+                    sequence = action.limit - 1;
+                    while (taken.contains (sequence))
+                        sequence--;
+                } else {
+                    while (taken.contains (sequence))
+                        sequence++;
+                }
 
-            int sequence = 0;
-            foreach (var action in sorted) {
-                if (action.sequence == -999)
-                    action.sequence = ++sequence;
+                action.sequence = sequence;
+                taken[sequence] = true;
+            }
 
-                sequence = action.sequence;
+            foreach (var action in actions.get_values ()) {
+                action.check (name);
                 add (action.name, action.condition, action.sequence);
             }
         }
@@ -446,8 +474,11 @@ namespace Wixl {
             action.name = name;
 
             var default = MSIDefault.get_action_by_name (name);
-            if (default != null)
+            if (default != null) {
                 action.sequence = default.sequence;
+                action.condition = default.condition;
+                action.scheduled = true;
+            }
 
             return action;
         }
@@ -464,6 +495,7 @@ namespace Wixl {
             seq = new Action ();
             actions.insert (default.name, seq);
             seq.name = default.name;
+            seq.scheduled = true;
             seq.sequence = default.sequence;
             seq.condition = default.condition;
         }
-- 
2.43.0


From a1926468cedd80ae3d01597de13336a294c11c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 101/122] fix: wixl scheduled custom actions that no file
 defines

---
 tools/wixl/builder.vala | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 9bf8acc..d08ca9c 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1059,8 +1059,10 @@ namespace Wixl {
             var parent = action.parent as WixSequence;
             var table = db.tables.lookup (parent.name) as MsiTableSequence;
 
-            if (action.name == "Custom")
+            if (action.name == "Custom") {
+                check_reference<WixCustomAction> ("custom action", action.Action);
                 action.name = action.Action;
+            }
             if (action.name == "Show")
                 action.name = action.Dialog;
 
-- 
2.43.0


From 0964926b30c5c964a0ad2935144032c3fe321994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 102/122] fix: wixl crashed on AdvertiseExecuteSequence

---
 tools/wixl/builder.vala | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index d08ca9c..f05f176 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1057,7 +1057,9 @@ namespace Wixl {
 
         public override void visit_action (WixAction action) throws GLib.Error {
             var parent = action.parent as WixSequence;
-            var table = db.tables.lookup (parent.name) as MsiTableSequence;
+            // the table has another name than the element
+            var name = parent.name == "AdvertiseExecuteSequence" ? "AdvtExecuteSequence" : parent.name;
+            var table = db.tables.lookup (name) as MsiTableSequence;
 
             if (action.name == "Custom") {
                 check_reference<WixCustomAction> ("custom action", action.Action);
-- 
2.43.0


From 558f54203cc5c2bd65b0b62a7c5c3611c73b3f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 103/122] fix: wixl had no place for actions before others

An action that is only scheduled before others takes the number right
below, which left none between them for the actions scheduled before it.
Numbers are now given in order first and actions that nothing precedes
moved up behind that.
---
 tools/wixl/msi.vala | 49 +++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 51f0417..b9094af 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -359,7 +359,9 @@ namespace Wixl {
 
             public bool is_fixed { get { return sequence != UNSET; } }
 
-            public bool only_before { get { return depends_on.length () == 0 && limit != int.MAX; } }
+            // nothing numbered is before this one, so it goes right before
+            // what follows
+            public bool is_late = false;
 
             public void add_dep (Action a) {
                 depends_on.append (a);
@@ -382,8 +384,11 @@ namespace Wixl {
                     throw new Wixl.Error.FAILED ("action %s is scheduled before itself".printf (name));
 
                 visiting = true;
-                foreach (var dep in depends_on)
+                is_late = needed_by.length () > 0;
+                foreach (var dep in depends_on) {
                     dep.sort (ref sorted);
+                    is_late = is_late && dep.is_late;
+                }
                 sorted.append (this);
             }
 
@@ -396,6 +401,13 @@ namespace Wixl {
                 }
             }
 
+            public int next_min () {
+                var ret = int.MAX;
+                foreach (var next in needed_by)
+                    ret = int.min (ret, next.sequence);
+                return ret;
+            }
+
             public void check (string table) throws GLib.Error {
                 foreach (var dep in depends_on) {
                     if (!dep.scheduled)
@@ -403,8 +415,6 @@ namespace Wixl {
                     if (dep.sequence >= sequence)
                         throw new Wixl.Error.FAILED ("%s: action %s can't be after %s".printf (table, name, dep.name));
                 }
-                if (sequence == 0 || sequence < 0 && only_before)
-                    throw new Wixl.Error.FAILED ("%s: no number is left for action %s".printf (table, name));
                 if (!scheduled)
                     throw new Wixl.Error.FAILED ("%s: action %s is not scheduled".printf (table, name));
             }
@@ -428,9 +438,7 @@ namespace Wixl {
             sorted.reverse ();
 
             CompareFunc<weak Action> cmp = (a, b) => {
-                if (a.limit != b.limit)
-                    return a.limit < b.limit ? -1 : 1;
-                return (a.only_before ? 1 : 0) - (b.only_before ? 1 : 0);
+                return a.limit < b.limit ? -1 : (int) (a.limit > b.limit);
             };
             sorted.sort (cmp);
             return sorted;
@@ -445,15 +453,26 @@ namespace Wixl {
 
             foreach (var action in unnumbered) {
                 var sequence = action.dep_max () + 1;
-                if (action.only_before) {
-                    sequence = action.limit - 1;
-                    while (taken.contains (sequence))
-                        sequence--;
-                } else {
-                    while (taken.contains (sequence))
-                        sequence++;
-                }
+                while (taken.contains (sequence))
+                    sequence++;
+
+                action.sequence = sequence;
+                taken[sequence] = true;
+            }
+
+            // the order has all that an action depends on before it
+            unnumbered.reverse ();
+            foreach (var action in unnumbered) {
+                if (!action.is_late)
+                    continue;
+
+                var sequence = action.next_min () - 1;
+                while (sequence > action.sequence && taken.contains (sequence))
+                    sequence--;
+                if (sequence <= action.sequence)
+                    continue;
 
+                taken.remove (action.sequence);
                 action.sequence = sequence;
                 taken[sequence] = true;
             }
-- 
2.43.0


From 9dce04f77506507587dc20559a6dd4b0739908a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 104/122] fix: wixl made component GUIDs of nested registry
 values without their key

A RegistryValue in a RegistryKey usually has no Root and Key of its own,
so the path that names the component was cut off there and the GUID did
not depend on the key path.
---
 tools/wixl/wix.vala | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/wix.vala b/tools/wixl/wix.vala
index 24a3084..594926c 100644
--- a/tools/wixl/wix.vala
+++ b/tools/wixl/wix.vala
@@ -528,7 +528,16 @@ namespace Wixl {
         public string Name { get; set; }
 
         public override string path_name () throws GLib.Error {
-            return Root + "/" + Key;
+            var root = Root;
+            var key = Key;
+
+            if (parent is WixRegistryKey) {
+                var regkey = parent as WixRegistryKey;
+                root = Root ?? regkey.Root;
+                key = Key != null ? regkey.Key + "\\" + Key : regkey.Key;
+            }
+
+            return root + "/" + key;
         }
 
         public override void accept (WixNodeVisitor visitor) throws GLib.Error {
-- 
2.43.0


From bae6bf93801812996646fb485113929cb515252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 105/122] fix: wixl dropped dollar signs from text

A dollar sign that starts no reference stands for itself, as in WiX.
---
 tools/wixl/preprocessor.vala | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 002585d..e5b5e0e 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -68,9 +68,11 @@ namespace Wixl {
                     result += str[end:pos];
                 end = pos + 1;
                 var remainder = str[end:str.length];
-                if (remainder.has_prefix ("$"))
+                if (remainder.has_prefix ("$")) {
                     result += "$";
-                else if (remainder.has_prefix ("(")) {
+                    if (!remainder.has_prefix ("$("))
+                        end++;
+                } else if (remainder.has_prefix ("(")) {
                     var closing = find_closing_paren (remainder);
                     if (closing == -1)
                         throw new Wixl.Error.FAILED ("no matching closing parenthesis");
@@ -82,7 +84,8 @@ namespace Wixl {
                         throw new Wixl.Error.FAILED ("Undefined variable %s", substring);
                     result += val;
                     end += closing + 1;
-                }
+                } else
+                    result += "$";
             }
 
             return result + str[end:str.length];
-- 
2.43.0


From 88ea0afb67ef6657ba37c0a0f41d880a2dd0f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 106/122] fix: wixl-heat refused options that are not ASCII

Option values are converted from the locale's encoding, which was never
set.
---
 tools/wixl/wixl-heat.vala | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 4c828f7..63a5f1f 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -32,6 +32,8 @@ string escape_filename(string filename) {
 
 public int main (string[] args) {
 
+    Intl.setlocale (LocaleCategory.ALL, "");
+
     var cmdline = string.joinv (" ", args);
     var opt_context = new OptionContext ("");
     opt_context.set_help_enabled (true);
-- 
2.43.0


From 3d12720635cde8750218e2a55fde8eef35108f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 107/122] fix: wixl-heat went on after an option it does not
 know

---
 tools/wixl/wixl-heat.vala | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 63a5f1f..9fff7c7 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -49,7 +49,8 @@ public int main (string[] args) {
         GLib.stdout.printf (opt_context.get_help (true, null));
         return 1;
     } catch (OptionError error) {
-        warning (error.message);
+        GLib.stderr.printf ("%s\n", error.message);
+        return 1;
     }
 
     if (prefix == null) {
-- 
2.43.0


From f460d8a019a9d967d9a04f66e809ffcbdaa0c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 108/122] fix: wixl-heat wrote file names without escaping them

Names with characters that mean something in XML or to the preprocessor
gave documents that wixl did not accept.
---
 tools/wixl/wixl-heat.vala | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 9fff7c7..d608f54 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -27,7 +27,11 @@ bool filtered (string file) {
 }
 
 string escape_filename(string filename) {
-    return filename.replace("$", "$$");
+    return escape (filename.replace("$", "$$"));
+}
+
+string escape (string text) {
+    return Markup.escape_text (text);
 }
 
 public int main (string[] args) {
@@ -58,12 +62,12 @@ public int main (string[] args) {
         return 1;
     }
     if (vardir != null)
-        sourcedir = "$(%s)".printf (vardir);
+        sourcedir = "$(%s)".printf (escape (vardir));
 
     stdout.printf ("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
     stdout.printf ("<Wix xmlns=\"http://schemas.microsoft.com/wix/2006/wi\">\n");
     stdout.printf ("  <Fragment>\n");
-    stdout.printf ("    <DirectoryRef Id=\"%s\">\n".printf (dr));
+    stdout.printf ("    <DirectoryRef Id=\"%s\">\n".printf (escape (dr)));
 
     string[] last_path = null;
     List<string> cmpref = null;
@@ -97,7 +101,7 @@ public int main (string[] args) {
                 }
             }
             for (; i < path.length; i++) {
-                stdout.printf (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (random_id ("dir"), path[i]));
+                stdout.printf (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (random_id ("dir"), escape_filename (path[i])));
                 indent += "  ";
             }
             last_path = path;
@@ -128,7 +132,7 @@ public int main (string[] args) {
     stdout.printf ("  </Fragment>\n");
     if (cg != null) {
         stdout.printf ("  <Fragment>\n");
-        stdout.printf ("    <ComponentGroup Id=\"%s\">\n".printf (cg));
+        stdout.printf ("    <ComponentGroup Id=\"%s\">\n".printf (escape (cg)));
         foreach (var id in cmpref)
             stdout.printf ("      <ComponentRef Id=\"%s\"/>\n".printf (id));
         stdout.printf ("    </ComponentGroup>\n");
@@ -137,6 +141,8 @@ public int main (string[] args) {
 
     stdout.printf ("</Wix>\n");
     stdout.printf ("<!-- generated with %s -->\n", Config.PACKAGE_STRING);
-    stdout.printf ("<!-- %s -->\n", cmdline.replace ("--", "-"));
+    while ("--" in cmdline)
+        cmdline = cmdline.replace ("--", "-");
+    stdout.printf ("<!-- %s -->\n", cmdline);
     return 0;
 }
-- 
2.43.0


From 5f2300d55b2a33cc81cfb508c5d49ef7433f43bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 109/122] fix: wixl-heat repeated files that are listed twice

---
 tools/wixl/wixl-heat.vala | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index d608f54..04a6da5 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -71,6 +71,7 @@ public int main (string[] args) {
 
     string[] last_path = null;
     List<string> cmpref = null;
+    var seen = new HashTable<string, bool> (str_hash, str_equal);
     var indent = "      ";
 
     try {
@@ -82,8 +83,9 @@ public int main (string[] args) {
                 continue;
 
             var file = line[prefix.length:line.length];
-            if (filtered (file))
+            if (filtered (file) || seen.contains (file))
                 continue;
+            seen[file] = true;
 
             var gfile = File.new_for_path (line);
             var is_directory = gfile.query_file_type (FileQueryInfoFlags.NONE) == FileType.DIRECTORY;
-- 
2.43.0


From f21f1931bcb19cffd5edfaae74f77321161633f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 110/122] fix: wixl-heat made directories without a name

A prefix without a slash at its end gave every path an empty first
directory.
---
 tools/wixl/wixl-heat.vala | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 04a6da5..ff29d3c 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -91,7 +91,10 @@ public int main (string[] args) {
             var is_directory = gfile.query_file_type (FileQueryInfoFlags.NONE) == FileType.DIRECTORY;
 
             var dir = is_directory ? file : Path.get_dirname (file);
-            var path = dir.split (Path.DIR_SEPARATOR_S, -1);
+            string[] path = {};
+            foreach (var name in dir.split (Path.DIR_SEPARATOR_S, -1))
+                if (name != "")
+                    path += name;
             var i = 0;
             if (last_path != null) {
                 while ((path[i] != null && last_path[i] != null) &&
-- 
2.43.0


From 45f19faf22d0b4f3140783cc33e80c4f09276953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 111/122] fix: wixl ignored conditions in the text of Publish
 elements

The element's text is its condition, and only the Condition attribute was
read: a conditional event was published unconditionally.
---
 tools/wixl/builder.vala | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index f05f176..90514e7 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1867,8 +1867,12 @@ namespace Wixl {
                 argument = publish.Value;
             }
 
+            // set condition from either an attribute or inner text
             if (publish.Condition != null) {
                 condition = publish.Condition;
+            } else if (publish.children.length () > 0) {
+                var text = publish.children.first ().data as WixText;
+                condition = text.Text.strip ();
             }
 
             if (publish.Order != null) {
-- 
2.43.0


From 175d8bb21228d1f6dca47949b7a8b982d9af248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 112/122] fix: wixl ignored the text of UIText elements

The element's text is what it defines, and only the Value attribute was
read, so the row's text was empty.
---
 tools/wixl/builder.vala | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 90514e7..aec0955 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1510,7 +1510,11 @@ namespace Wixl {
         }
 
         public override void visit_ui_text (WixUIText text) throws GLib.Error {
-            db.table_ui_text.add (text.Id, text.Value);
+            var value = text.Value;
+            if (value == null && text.children.length () > 0)
+                value = (text.children.first ().data as WixText).Text.strip ();
+
+            db.table_ui_text.add (text.Id, value);
         }
 
         public override void visit_text_element (WixTextElement text) throws GLib.Error {
-- 
2.43.0


From 3d839e27f2cf1666acd5d729c2d0ed1173212368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 113/122] fix: wixl dropped ProgressText elements without text

One may have a Template only.
---
 tools/wixl/builder.vala | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index aec0955..4952cc1 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1918,10 +1918,11 @@ namespace Wixl {
         }
 
         public override void visit_progress_text (WixProgressText progress_text) throws GLib.Error {
-            return_if_fail (progress_text.children.length () == 1);
-            var text = progress_text.children.first ().data as WixText;
+            string? description = null;
+            if (progress_text.children.length () > 0)
+                description = (progress_text.children.first ().data as WixText).Text.strip ();
 
-            db.table_action_text.add (progress_text.Action, text.Text.strip(), progress_text.Template);
+            db.table_action_text.add (progress_text.Action, description, progress_text.Template);
         }
     }
 
-- 
2.43.0


From 7d7383e7c88faaeb77cc39f7381cb74908bc9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 114/122] fix: wixl crashed on dialogs without controls

---
 tools/wixl/builder.vala | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 4952cc1..7425dba 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1617,6 +1617,9 @@ namespace Wixl {
             if (parse_yesno (dialog.ErrorDialog))
                 attributes |= DialogStyleBits.ERROR;
 
+            if (dialog.children.length () == 0)
+                throw new Wixl.Error.FAILED ("dialog %s has no controls".printf (dialog.Id));
+
             WixControl first = dialog.children.first().data as WixControl;
 
             db.table_dialog.add (dialog.Id, hcenter, vcenter, width, height,
-- 
2.43.0


From 15b750ff4ebc817ab0d0607483c482728c70cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 115/122] fix: wixl ignored Remote attributes of controls

---
 tools/wixl/builder.vala | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 7425dba..ad9de52 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1747,6 +1747,8 @@ namespace Wixl {
             // Volume and Directory
             if (parse_yesno (control.Fixed))
                 attributes |= ControlAttributes.FIXED_VOLUME;
+            if (parse_yesno (control.Remote))
+                attributes |= ControlAttributes.REMOTE_VOLUME;
 
             // PictureButton
             if (control.IconSize != null) {
-- 
2.43.0


From cef2b79a6a77c1e0b4c31c0d54e119906ebab49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 116/122] fix: wixl ignored Bitmap attributes of controls

---
 tools/wixl/builder.vala | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index ad9de52..14eea36 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1729,6 +1729,8 @@ namespace Wixl {
                 attributes |= ControlAttributes.SUNKEN;
             if (parse_yesno (control.Indirect))
                 attributes |= ControlAttributes.INDIRECT;
+            if (parse_yesno (control.Bitmap))
+                attributes |= ControlAttributes.BITMAP;
             if (parse_yesno (control.Icon))
                 attributes |= ControlAttributes.ICON;
             if (!parse_yesno (control.Hidden))
-- 
2.43.0


From 92866769fe0dc12515498e449ac064405f315e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 117/122] fix: wixl dropped user interfaces built without the
 extension

The tables are missing then, and every row was lost with a critical
warning while the package was built as if nothing had happened.
---
 tools/wixl/builder.vala | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 14eea36..6625d38 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1509,7 +1509,15 @@ namespace Wixl {
             }
         }
 
+        // the tables of the user interface are only there with its extension
+        void check_ui (WixElement element) throws GLib.Error {
+            if (!(Extension.UI in extensions))
+                throw new Wixl.Error.FAILED ("%s needs the extension '%s'".printf (element.name, Extension.UI.to_string ()));
+        }
+
         public override void visit_ui_text (WixUIText text) throws GLib.Error {
+            check_ui (text);
+
             var value = text.Value;
             if (value == null && text.children.length () > 0)
                 value = (text.children.first ().data as WixText).Text.strip ();
@@ -1544,6 +1552,8 @@ namespace Wixl {
         }
 
         public override void visit_text_style (WixTextStyle style) throws GLib.Error {
+            check_ui (style);
+
             int? color = null;
             TextStyleBits bits = 0;
 
@@ -1590,6 +1600,8 @@ namespace Wixl {
         }
 
         public override void visit_dialog (WixDialog dialog) throws GLib.Error {
+            check_ui (dialog);
+
             int hcenter = 50;
             int vcenter = 50;
             int attributes = 0;
@@ -1707,6 +1719,8 @@ namespace Wixl {
         }
 
         public override void visit_control (WixControl control) throws GLib.Error {
+            check_ui (control);
+
             int attributes = 0;
             int x = 100;
             int y = 100;
@@ -1847,6 +1861,8 @@ namespace Wixl {
         }
 
         public override void visit_publish (WixPublish publish) throws GLib.Error {
+            check_ui (publish);
+
             int order;
             string control;
             string dialog;
@@ -1900,6 +1916,8 @@ namespace Wixl {
         }
 
         public override void visit_radio_button (WixRadioButton radio) throws GLib.Error {
+            check_ui (radio);
+
             string property;
             int order;
             WixRadioButtonGroup group = radio.parent as WixRadioButtonGroup;
@@ -1914,6 +1932,8 @@ namespace Wixl {
         }
 
         public override void visit_subscribe (WixSubscribe subscribe) throws GLib.Error {
+            check_ui (subscribe);
+
             string control;
             string dialog;
 
-- 
2.43.0


From 89b95653279dce905f978d6324ea19481ce0a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 118/122] fix: wixl dropped incomplete Publish elements

---
 tools/wixl/builder.vala | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 6625d38..5a2f61b 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1894,6 +1894,9 @@ namespace Wixl {
                 argument = publish.Value;
             }
 
+            if (dialog == null || control == null || event == null || argument == null)
+                throw new Wixl.Error.FAILED ("Publish needs a control and an event or property with a value");
+
             // set condition from either an attribute or inner text
             if (publish.Condition != null) {
                 condition = publish.Condition;
-- 
2.43.0


From 5558663967aac584d0e6209ff99231943ff8e128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:51 +0000
Subject: [PATCH 119/122] fix: an empty storage inside a storage is stored as
 one, not as a stream

---
 libmsi/libmsi-database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index c6e603c..90a40c7 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2499,7 +2499,7 @@ static int gsf_infile_copy(GsfInfile *inf, GsfOutfile *outf)
         const char *name = gsf_infile_name_by_index(inf, i);
         GsfInput *child = gsf_infile_child_by_index(inf, i);
         GsfInfile *childf = GSF_IS_INFILE (child) ? GSF_INFILE (child) : NULL;
-        gboolean is_dir = childf && gsf_infile_num_children (childf) > 0;
+        gboolean is_dir = childf && gsf_infile_num_children (childf) >= 0;
         GsfOutput *dest = gsf_outfile_new_child(outf, name, is_dir);
         gboolean ok;
 
-- 
2.43.0


From dd439ee68eca2e8bc859319ca6fd4e828e4621b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:51 +0000
Subject: [PATCH 120/122] fix: storages keep their class when the database is
 committed

---
 libmsi/libmsi-database.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 90a40c7..7345b1e 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2493,8 +2493,13 @@ libmsi_database_apply_transform (LibmsiDatabase *db,
 static int gsf_infile_copy(GsfInfile *inf, GsfOutfile *outf)
 {
     int n = gsf_infile_num_children(inf);
+    uint8_t uuid[16];
     int i;
 
+    /* the class tells, for example, that a storage is a transform */
+    if (gsf_infile_msole_get_class_id(GSF_INFILE_MSOLE(inf), uuid))
+        gsf_outfile_msole_set_class_id(GSF_OUTFILE_MSOLE(outf), uuid);
+
     for (i = 0; i < n; i++) {
         const char *name = gsf_infile_name_by_index(inf, i);
         GsfInput *child = gsf_infile_child_by_index(inf, i);
-- 
2.43.0


From 307044d41330c63c9c257e83b8b2b76f9d0d8af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:51 +0000
Subject: [PATCH 121/122] fix: storages whose name cannot be stored are refused

---
 libmsi/libmsi-database.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 7345b1e..79bd6c6 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -264,6 +264,11 @@ unsigned msi_create_storage( LibmsiDatabase *db, const char *stname, GsfInput *s
     }
 
     if (!found) {
+        if (!*stname || !streamname_fits( stname ))
+        {
+            g_warning("storage name %s is empty or too long\n", debugstr_a(stname));
+            return r;
+        }
         if (!(storage = msi_alloc_zero( sizeof(LibmsiStorage) ))) return LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
         storage->name = strdup( stname );
         if (!storage->name)
-- 
2.43.0


From 8115a56edc717d0476d9eba464bc18ec7784256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:27 +0000
Subject: [PATCH 122/122] fix: a storage with a stream of 4096 bytes or more
 broke the database it was committed to

A child of an outfile stays open, and is not written, until it is closed: dropping
the reference is not enough, as the outfile keeps one.  With a second such stream
the commit failed; with one, the file written could not be read back.
---
 libmsi/libmsi-database.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 79bd6c6..50c2e10 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2518,6 +2518,10 @@ static int gsf_infile_copy(GsfInfile *inf, GsfOutfile *outf)
         else
             ok = gsf_input_copy(child, dest);
 
+        /* the outfile keeps its children, so that dropping ours closes none */
+        if (!gsf_output_close(dest))
+            ok = false;
+
         g_object_unref(G_OBJECT(child));
         g_object_unref(G_OBJECT(dest));
         if (!ok)
-- 
2.43.0

