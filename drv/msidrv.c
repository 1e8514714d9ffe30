/* msidrv: executes a script of libmsi public-API calls and prints one JSON
 * line per call.  It only uses the public API of the library under test.
 *
 * input : one command per line, tab separated, %XX escaped arguments
 * output: one JSON object per line
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <glib-object.h>
#include <gio/gio.h>
#include <libmsi.h>
#include <gsf/gsf-utils.h>
#include <gsf/gsf-output-stdio.h>
#include <gsf/gsf-outfile.h>
#include <gsf/gsf-outfile-msole.h>
#include <gsf/gsf-infile.h>
#include <gsf/gsf-infile-msole.h>
#include <gsf/gsf-input-stdio.h>

#define NH 64
static LibmsiDatabase *dbs[NH];
static LibmsiQuery *qs[NH];
static LibmsiRecord *recs[NH];
static LibmsiSummaryInfo *sis[NH];
static char *owned[NH];
static FILE *out, *real_out;
static gboolean last_commit;
static int nlog;

static void unesc(char *s)
{
    char *d = s;
    while (*s) {
        if (*s == '%' && s[1] && s[2]) {
            char h[3] = { s[1], s[2], 0 };
            *d++ = (char)strtol(h, NULL, 16);
            s += 3;
        } else
            *d++ = *s++;
    }
    *d = 0;
}

static void jstr(const char *s, gssize len)
{
    gssize i;
    if (len < 0) len = strlen(s);
    fputc('"', out);
    for (i = 0; i < len; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') fprintf(out, "\\%c", c);
        else if (c < 0x20 || c >= 0x7f) fprintf(out, "\\u%04x", c);
        else fputc(c, out);
    }
    fputc('"', out);
}

static void jerr(GError *e)
{
    if (e) {
        fprintf(out, ",\"dom\":");
        jstr(g_quark_to_string(e->domain), -1);
        fprintf(out, ",\"code\":%d", e->code);
    }
}

static void jbytes(const unsigned char *p, gsize n)
{
    gsize i;
    fputc('"', out);
    for (i = 0; i < n; i++) fprintf(out, "%02x", p[i]);
    fputc('"', out);
}

static void jstream(LibmsiRecord *r, guint f)
{
    GInputStream *in = libmsi_record_get_stream(r, f);
    if (!in) { fprintf(out, "[\"nostream\"]"); return; }
    GByteArray *ba = g_byte_array_new();
    guint8 buf[4096];
    gssize n;
    GError *e = NULL;
    while ((n = g_input_stream_read(in, buf, sizeof buf, NULL, &e)) > 0)
        g_byte_array_append(ba, buf, n);
    if (n < 0) { fprintf(out, "[\"streamerr\"]"); g_clear_error(&e); }
    else {
        fprintf(out, "[\"b\",");
        jbytes(ba->data, ba->len);
        fprintf(out, "]");
    }
    g_byte_array_free(ba, TRUE);
    g_object_unref(in);
}

/* type: column type letter or 0 if unknown */
static void jfield(LibmsiRecord *r, guint f, char t)
{
    if (t == 'v' || t == 'V') { 
        if (libmsi_record_is_null(r, f)) fprintf(out, "[\"n\"]"); else jstream(r, f);
        return; }
    if (libmsi_record_is_null(r, f)) { fprintf(out, "[\"n\"]"); return; }
    if (t == 'i' || t == 'I' || t == 'j' || t == 'J') {
        fprintf(out, "[\"i\",%d]", libmsi_record_get_int(r, f));
        return;
    }
    char *s = libmsi_record_get_string(r, f);
    if (!s) { fprintf(out, "[\"nostr\"]"); return; }
    fprintf(out, "[\"s\",");
    jstr(s, -1);
    fprintf(out, "]");
    g_free(s);
}

/* parameter list: argv tokens  i:N s:STR n f:FILE m:HEX (set_stream) */
static LibmsiRecord *mkrec(char **a, int n)
{
    if (n <= 0) return NULL;
    LibmsiRecord *r = libmsi_record_new(n);
    for (int i = 0; i < n; i++) {
        char *v = a[i];
        if (v[0] == 'i') libmsi_record_set_int(r, i + 1, atoi(v + 2));
        else if (v[0] == 's') libmsi_record_set_string(r, i + 1, v + 2);
        else if (v[0] == 'f') libmsi_record_load_stream(r, i + 1, v + 2);
        else if (v[0] == 'm') {
            gsize len = strlen(v + 2) / 2;
            guint8 *b = g_malloc(len + 1);
            for (gsize k = 0; k < len; k++) {
                char h[3] = { v[2 + 2 * k], v[3 + 2 * k], 0 };
                b[k] = strtol(h, NULL, 16);
            }
            GInputStream *in = g_memory_input_stream_new_from_data(b, len, g_free);
            libmsi_record_set_stream(r, i + 1, in, len, NULL, NULL);
            g_object_unref(in);
        }
    }
    return r;
}

static char *coltypes(LibmsiQuery *q, int *n)
{
    *n = 0;
    LibmsiRecord *ci = libmsi_query_get_column_info(q, LIBMSI_COL_INFO_TYPES, NULL);
    if (!ci) return NULL;
    *n = libmsi_record_get_field_count(ci);
    char *t = g_malloc0(*n + 1);
    for (int i = 0; i < *n; i++) {
        char *s = libmsi_record_get_string(ci, i + 1);
        t[i] = s ? s[0] : 0;
        g_free(s);
    }
    g_object_unref(ci);
    return t;
}

static void jrec(LibmsiRecord *r, const char *t, int nt)
{
    guint n = libmsi_record_get_field_count(r);
    fprintf(out, "[");
    for (guint i = 1; i <= n; i++) {
        if (i > 1) fprintf(out, ",");
        jfield(r, i, t && (int)i <= nt ? t[i - 1] : 0);
    }
    fprintf(out, "]");
}

static gboolean is_select(const char *q)
{
    while (*q == ' ' || *q == '\t' || *q == '\n' || *q == '\f') q++;
    return g_ascii_strncasecmp(q, "select", 6) == 0;
}

static void fetch_all(LibmsiQuery *q, GError **e)
{
    int nt = 0, first = 1;
    char *t = coltypes(q, &nt);
    LibmsiRecord *r;
    fprintf(out, ",\"types\":\"%s\",\"rows\":[", t ? t : "");
    while ((r = libmsi_query_fetch(q, e))) {
        if (!first) fprintf(out, ",");
        first = 0;
        jrec(r, t, nt);
        g_object_unref(r);
    }
    fprintf(out, "]");
    g_free(t);
}

static void loghandler(const gchar *d, GLogLevelFlags l, const gchar *m, gpointer u)
{
    (void)d; (void)l; (void)u;
    nlog++;
    if (getenv("MSIDRV_LOG")) fprintf(stderr, "LOG: %s\n", m);
}

static void jstrrec(LibmsiRecord *r)
{
    guint n = libmsi_record_get_field_count(r);
    fprintf(out, "[");
    for (guint i = 1; i <= n; i++) {
        char *s = libmsi_record_get_string(r, i);
        if (i > 1) fprintf(out, ",");
        jstr(s ? s : "", -1);
        g_free(s);
    }
    fprintf(out, "]");
}

/* everything a session can see of its database */
static GPtrArray *names_of(LibmsiDatabase *db, GError **e)
{
    GPtrArray *a = g_ptr_array_new_with_free_func(g_free);
    LibmsiQuery *q = libmsi_query_new(db, "SELECT `Name` FROM `_Tables`", e);
    LibmsiRecord *r;
    if (q && libmsi_query_execute(q, NULL, e))
        while ((r = libmsi_query_fetch(q, e))) {
            char *s = libmsi_record_get_string(r, 1);
            g_ptr_array_add(a, s ? s : g_strdup(""));
            g_object_unref(r);
        }
    if (q) g_object_unref(q);
    return a;
}

static gboolean jquery(LibmsiDatabase *db, const char *sql)
{
    GError *e = NULL;
    LibmsiQuery *q = libmsi_query_new(db, sql, &e);
    gboolean ok = q && libmsi_query_execute(q, NULL, &e);
    int nt = 0, first = 1;
    fprintf(out, "[");
    if (ok) {
        char *t = coltypes(q, &nt);
        LibmsiRecord *r;
        while ((r = libmsi_query_fetch(q, &e))) {
            if (!first) fprintf(out, ",");
            first = 0;
            jrec(r, t, nt);
            g_object_unref(r);
        }
        g_free(t);
    }
    fprintf(out, "]");
    if (e) { ok = FALSE; g_clear_error(&e); }
    if (q) g_object_unref(q);
    return ok;
}

static void snap(LibmsiDatabase *db)
{
    GError *e = NULL;
    gboolean ok = TRUE;
    GPtrArray *a = names_of(db, &e);
    if (e) { ok = FALSE; g_clear_error(&e); }
    fprintf(out, "\"tabs\":[");
    for (guint i = 0; i < a->len; i++) {
        const char *n = a->pdata[i];
        char *sql = g_strdup_printf("SELECT * FROM `%s`", n);
        LibmsiQuery *q;
        LibmsiRecord *cn = NULL, *ct = NULL, *pk;
        if (i) fprintf(out, ",");
        fprintf(out, "{\"name\":"); jstr(n, -1);
        q = libmsi_query_new(db, sql, &e);
        if (q) cn = libmsi_query_get_column_info(q, LIBMSI_COL_INFO_NAMES, NULL);
        if (q) ct = libmsi_query_get_column_info(q, LIBMSI_COL_INFO_TYPES, NULL);
        if (!q) { ok = FALSE; g_clear_error(&e); }
        fprintf(out, ",\"names\":"); if (cn) jstrrec(cn); else fprintf(out, "[]");
        fprintf(out, ",\"types\":"); if (ct) jstrrec(ct); else fprintf(out, "[]");
        if (cn) g_object_unref(cn);
        if (ct) g_object_unref(ct);
        if (q) g_object_unref(q);
        pk = libmsi_database_get_primary_keys(db, n, &e);
        if (e) { g_clear_error(&e); }
        fprintf(out, ",\"pk\":"); if (pk) { jstrrec(pk); g_object_unref(pk); } else fprintf(out, "[]");
        fprintf(out, ",\"per\":%s", libmsi_database_is_table_persistent(db, n, &e) ? "true" : "false");
        if (e) { g_clear_error(&e); }
        fprintf(out, ",\"rows\":");
        if (!jquery(db, sql)) ok = FALSE;
        fprintf(out, "}");
        g_free(sql);
    }
    g_ptr_array_free(a, TRUE);
    fprintf(out, "],\"cat\":");
    if (!jquery(db, "SELECT * FROM `_Columns`")) ok = FALSE;
    fprintf(out, ",\"str\":");
    if (!jquery(db, "SELECT * FROM `_Streams`")) ok = FALSE;
    fprintf(out, ",\"ok\":%s", ok ? "true" : "false");
}

/* ---- compound files: cfile path (entry hex)...; an entry is a/b for a stream, a/b/ for a storage whose hex is its class */
static void unhex(const char *h, guint8 *b, gsize n)
{
    for (gsize k = 0; k < n; k++) {
        char x[3] = { h[2 * k], h[2 * k + 1], 0 };
        b[k] = strtoul(x, NULL, 16);
    }
}

static gboolean cfill(GsfOutfile *o, const char *prefix, int c, char **v)
{
    gboolean ok = TRUE;
    gsize pl = strlen(prefix);
    for (int k = 0; k + 1 < c; k += 2) {
        if (strncmp(v[k], prefix, pl) || !v[k][pl]) {
            if (!strcmp(v[k], prefix) && strlen(v[k + 1]) == 32) {
                guint8 id[16];
                unhex(v[k + 1], id, 16);
                ok = gsf_outfile_msole_set_class_id(GSF_OUTFILE_MSOLE(o), id) && ok;
            }
            continue;
        }
        char *name = g_strdup(v[k] + pl), *sl = strchr(name, '/');
        if (sl && sl[1]) { g_free(name); continue; }        /* further down */
        if (sl) *sl = 0;
        GsfOutput *ch = gsf_outfile_new_child(o, name, sl != NULL);
        if (!ch) ok = FALSE;
        else if (sl) ok = cfill(GSF_OUTFILE(ch), v[k], c, v) && ok;
        else {
            gsize len = strlen(v[k + 1]) / 2;
            guint8 *b = g_malloc(len + 1);
            unhex(v[k + 1], b, len);
            ok = gsf_output_write(ch, len, b) && ok;
            g_free(b);
        }
        if (ch) { ok = gsf_output_close(ch) && ok; g_object_unref(ch); }
        g_free(name);
    }
    return ok;
}

static void cdump(GsfInfile *in, const char *prefix, int *k)
{
    int n = gsf_infile_num_children(in);
    for (int i = 0; i < n; i++) {
        GsfInput *ch = gsf_infile_child_by_index(in, i);
        if (!ch) continue;
        gboolean dir = GSF_IS_INFILE(ch) && gsf_infile_num_children(GSF_INFILE(ch)) >= 0;
        if (!*prefix && !dir) { g_object_unref(ch); continue; }     /* the database's own streams */
        char *p = g_strconcat(prefix, gsf_infile_name_by_index(in, i), dir ? "/" : "", NULL);
        fprintf(out, "%s[", (*k)++ ? "," : ""); jstr(p, -1); fprintf(out, ",");
        if (dir) {
            guint8 id[16] = { 0 };
            gsf_infile_msole_get_class_id(GSF_INFILE_MSOLE(ch), id);
            jbytes(id, 16);
            fprintf(out, "]");
            cdump(GSF_INFILE(ch), p, k);
        } else {
            gsf_off_t len = gsf_input_size(ch);
            const guint8 *b = len ? gsf_input_read(ch, len, NULL) : (const guint8 *)"";
            jbytes(b, b ? len : 0);
            fprintf(out, "]");
        }
        g_free(p);
        g_object_unref(ch);
    }
}

static void run(int c, char **v)
{
    GError *e = NULL;
    const char *o = v[0];
    int h = c > 1 ? atoi(v[1]) % NH : 0;
#define IS(x) (!strcmp(o, x))
    if (IS("open")) {
        const char *persist = c > 4 && strcmp(v[4], "-") ? v[4] : NULL;
        dbs[h] = libmsi_database_new(v[2], atoi(v[3]), persist, &e);
        fprintf(out, "\"ok\":%s", dbs[h] ? "true" : "false");
        jerr(e);
    } else if (IS("close")) {
        if (dbs[h]) g_object_unref(dbs[h]);
        dbs[h] = NULL;
        fprintf(out, "\"ok\":true");
    } else if (IS("exit")) {
        fputs("\"ok\":true,\"log\":0}\n", real_out); fflush(real_out);
        _exit(0);
    } else if (IS("okexit")) {      /* the end, if the last commit was stored */
        if (last_commit) { fputs("\"ok\":true,\"log\":0}\n", real_out); fflush(real_out); _exit(0); }
        fprintf(out, "\"ok\":false");
    } else if (IS("commit")) {
        gboolean r = last_commit = libmsi_database_commit(dbs[h], &e);
        fprintf(out, "\"ok\":%s", r ? "true" : "false"); jerr(e);
    } else if (IS("sql")) {
        LibmsiQuery *q = libmsi_query_new(dbs[h], v[2], &e);
        const char *stage = "parse";
        gboolean ok = FALSE;
        if (q) {
            LibmsiRecord *r = mkrec(v + 3, c - 3);
            stage = "exec";
            ok = libmsi_query_execute(q, r, &e);
            if (r) g_object_unref(r);
            if (ok) {
                stage = "done";
                if (is_select(v[2])) fetch_all(q, &e);
                GError *e2 = NULL;
                libmsi_query_close(q, &e2);
                g_clear_error(&e2);
                ok = e == NULL;
                fprintf(out, ",");
            } else {
                char *col = NULL; GError *e3 = NULL;
                libmsi_query_get_error(q, &col, &e3);
                if (e3) fprintf(out, "\"dberr\":%d,", e3->code); 
                if (col) { fprintf(out, "\"dbcol\":"); jstr(col, -1); fprintf(out, ","); }
                g_clear_error(&e3); g_free(col);
            }
            g_object_unref(q);
        }
        fprintf(out, "\"stage\":\"%s\",\"ok\":%s", stage, ok ? "true" : "false");
        jerr(e);
    } else if (IS("prep")) {        /* prep Q DB text */
        int d = atoi(v[2]);
        if (qs[h]) { g_object_unref(qs[h]); qs[h] = NULL; }
        qs[h] = libmsi_query_new(dbs[d], v[3], &e);
        fprintf(out, "\"ok\":%s", qs[h] ? "true" : "false"); jerr(e);
    } else if (IS("exec")) {
        LibmsiRecord *r = mkrec(v + 2, c - 2);
        gboolean ok = qs[h] ? libmsi_query_execute(qs[h], r, &e) : FALSE;
        if (r) g_object_unref(r);
        fprintf(out, "\"ok\":%s", ok ? "true" : "false"); jerr(e);
    } else if (IS("exists")) {
        fprintf(out, "\"ok\":%s", access(v[1], F_OK) == 0 ? "true" : "false");
    } else if (IS("sha")) {
        gchar *data = NULL; gsize len = 0;
        if (g_file_get_contents(v[1], &data, &len, NULL)) {
            char *x = g_compute_checksum_for_data(G_CHECKSUM_SHA1, (guchar *)data, len);
            fprintf(out, "\"ok\":true,\"sha\":\"%s\"", x);
            g_free(x); g_free(data);
        } else
            fprintf(out, "\"ok\":false");
    } else if (IS("ole")) {         /* ole file class(0 none,1 transform,2 database) name hex ... : a compound file */
        static const guint8 cls[16] = { 0x82, 0x10, 0x0c, 0, 0, 0, 0, 0, 0xc0, 0, 0, 0, 0, 0, 0, 0x46 };
        guint8 id[16];
        memcpy(id, cls, 16);
        if (atoi(v[2]) == 2) id[0] = 0x84;
        GsfOutput *so = gsf_output_stdio_new(v[1], NULL);
        GsfOutfile *of = gsf_outfile_msole_new(so);
        g_object_unref(so);
        if (atoi(v[2])) gsf_outfile_msole_set_class_id(GSF_OUTFILE_MSOLE(of), id);
        gboolean ok = TRUE;
        for (int k = 3; k + 1 < c; k += 2) {
            gsize len = strlen(v[k + 1]) / 2;
            guint8 *b = g_malloc(len + 1);
            for (gsize j = 0; j < len; j++) {
                char x[3] = { v[k + 1][2 * j], v[k + 1][2 * j + 1], 0 };
                b[j] = strtoul(x, NULL, 16);
            }
            GsfOutput *ch = gsf_outfile_new_child(of, v[k], FALSE);
            ok = ch && gsf_output_write(ch, len, b) && gsf_output_close(ch) && ok;
            if (ch) g_object_unref(ch);
            g_free(b);
        }
        ok = gsf_output_close(GSF_OUTPUT(of)) && ok;
        g_object_unref(of);
        fprintf(out, "\"ok\":%s", ok ? "true" : "false");
    } else if (IS("cfile")) {
        GsfOutput *so = gsf_output_stdio_new(v[1], NULL);
        GsfOutfile *of = gsf_outfile_msole_new(so);
        g_object_unref(so);
        gboolean ok = cfill(of, "", c - 2, v + 2);
        ok = gsf_output_close(GSF_OUTPUT(of)) && ok;
        g_object_unref(of);
        fprintf(out, "\"ok\":%s", ok ? "true" : "false");
    } else if (IS("stgs")) {        /* stgs path : the storages of a compound file with all that is in them */
        GsfInput *in = gsf_input_stdio_new(v[1], NULL);
        GsfInfile *of = in ? gsf_infile_msole_new(in, NULL) : NULL;
        int k = 0;
        fprintf(out, "\"ok\":%s,\"tree\":[", of ? "true" : "false");
        if (of) cdump(of, "", &k);
        fprintf(out, "]");
        if (of) g_object_unref(of);
        if (in) g_object_unref(in);
    } else if (IS("wfile")) {       /* wfile dir name hex : a file in a directory */
        gsize len = strlen(v[3]) / 2;
        guint8 *b = g_malloc(len + 1);
        for (gsize k = 0; k < len; k++) {
            char x[3] = { v[3][2 * k], v[3][2 * k + 1], 0 };
            b[k] = strtol(x, NULL, 16);
        }
        g_mkdir_with_parents(v[1], 0755);
        char *p = g_build_filename(v[1], v[2], NULL);
        gboolean r = g_file_set_contents(p, (char *)b, len, NULL);
        fprintf(out, "\"ok\":%s", r ? "true" : "false");
        g_free(p); g_free(b);
    } else if (IS("rfile")) {       /* rfile path */
        gchar *data = NULL; gsize len = 0;
        gboolean r = g_file_get_contents(v[1], &data, &len, NULL);
        fprintf(out, "\"ok\":%s", r ? "true" : "false");
        if (r) { fprintf(out, ",\"text\":"); jstr(data, len); }
        g_free(data);
    } else if (IS("lsdir")) {       /* lsdir path : the files in it, with their bytes */
        GDir *d = g_dir_open(v[1], 0, NULL);
        const char *n; int k = 0;
        fprintf(out, "\"ok\":true,\"files\":[");
        while (d && (n = g_dir_read_name(d))) {
            char *p = g_build_filename(v[1], n, NULL);
            gchar *data = NULL; gsize len = 0;
            if (g_file_get_contents(p, &data, &len, NULL)) {
                fprintf(out, "%s[", k++ ? "," : ""); jstr(n, -1); fprintf(out, ",");
                jbytes((unsigned char *)data, len); fprintf(out, "]");
            }
            g_free(data); g_free(p);
        }
        fprintf(out, "]");
        if (d) g_dir_close(d);
    } else if (IS("snap")) {
        snap(dbs[h]);
    } else if (IS("runall")) {      /* runall Q s|x params : execute, s: fetch everything */
        LibmsiRecord *r = mkrec(v + 3, c - 3);
        gboolean ok = qs[h] ? libmsi_query_execute(qs[h], r, &e) : FALSE;
        if (r) g_object_unref(r);
        if (ok) {
            if (v[2][0] == 's') { fprintf(out, "\"q\":%d", h); fetch_all(qs[h], &e); fprintf(out, ","); }
            GError *e2 = NULL;
            libmsi_query_close(qs[h], &e2);
            g_clear_error(&e2);
            ok = e == NULL;
        }
        fprintf(out, "\"ok\":%s", ok ? "true" : "false"); jerr(e);
    } else if (IS("execrec")) {
        int ri = atoi(v[2]) % NH;
        gboolean ok = qs[h] ? libmsi_query_execute(qs[h], recs[ri], &e) : FALSE;
        fprintf(out, "\"ok\":%s", ok ? "true" : "false"); jerr(e);
    } else if (IS("fetch")) {
        int nt = 0; char *t = coltypes(qs[h], &nt);
        LibmsiRecord *r = libmsi_query_fetch(qs[h], &e);
        fprintf(out, "\"ok\":%s", e ? "false" : "true");
        if (r) { fprintf(out, ",\"row\":"); jrec(r, t, nt); g_object_unref(r); }
        jerr(e); g_free(t);
    } else if (IS("fetchall")) {
        fprintf(out, "\"q\":%d", h);
        fetch_all(qs[h], &e);
        fprintf(out, ",\"ok\":%s", e ? "false" : "true"); jerr(e);
    } else if (IS("fetchrec")) {    /* fetchrec Q R : keep the record */
        int ri = atoi(v[2]) % NH;
        if (recs[ri]) { g_object_unref(recs[ri]); recs[ri] = NULL; }
        recs[ri] = libmsi_query_fetch(qs[h], &e);
        fprintf(out, "\"ok\":%s,\"got\":%s", e ? "false" : "true", recs[ri] ? "true" : "false");
        jerr(e);
    } else if (IS("qclose")) {
        gboolean ok = libmsi_query_close(qs[h], &e);
        fprintf(out, "\"ok\":%s", ok ? "true" : "false"); jerr(e);
    } else if (IS("qfree")) {
        if (qs[h]) g_object_unref(qs[h]);
        qs[h] = NULL;
        fprintf(out, "\"ok\":true");
    } else if (IS("colinfo")) {     /* colinfo DB text */
        LibmsiQuery *q = libmsi_query_new(dbs[h], v[2], &e);
        gboolean ok = FALSE;
        if (q) {
            LibmsiRecord *n = NULL, *t = NULL;
            n = libmsi_query_get_column_info(q, LIBMSI_COL_INFO_NAMES, &e);
            if (n) t = libmsi_query_get_column_info(q, LIBMSI_COL_INFO_TYPES, &e);
            if (n && t) {
                ok = TRUE;
                fprintf(out, "\"names\":"); jstrrec(n);
                fprintf(out, ",\"types\":"); jstrrec(t);
                fprintf(out, ",");
            }
            if (n) g_object_unref(n);
            if (t) g_object_unref(t);
            g_object_unref(q);
        }
        fprintf(out, "\"ok\":%s", ok ? "true" : "false"); jerr(e);
    } else if (IS("pk")) {
        LibmsiRecord *r = libmsi_database_get_primary_keys(dbs[h], v[2], &e);
        fprintf(out, "\"ok\":%s", r && !e ? "true" : "false"); jerr(e);
        if (r && !e) {
            char *t = libmsi_record_get_string(r, 0);
            fprintf(out, ",\"table\":"); jstr(t ? t : "", -1); g_free(t);
            fprintf(out, ",\"keys\":"); jstrrec(r);
            g_object_unref(r);
        }
    } else if (IS("persistent")) {
        gboolean r = libmsi_database_is_table_persistent(dbs[h], v[2], &e);
        fprintf(out, "\"ok\":%s,\"res\":%s", e ? "false" : "true", r ? "true" : "false"); jerr(e);
    } else if (IS("readonly")) {
        fprintf(out, "\"ok\":true,\"res\":%s", libmsi_database_is_readonly(dbs[h]) ? "true" : "false");
    } else if (IS("export")) {
        int fd = open(v[3], O_WRONLY | O_CREAT | O_TRUNC, 0644);
        gboolean r = libmsi_database_export(dbs[h], v[2], fd, &e);
        close(fd);
        if (!r) unlink(v[3]);
        fprintf(out, "\"ok\":%s", r ? "true" : "false"); jerr(e);
    } else if (IS("import")) {
        gboolean r = libmsi_database_import(dbs[h], v[2], &e);
        fprintf(out, "\"ok\":%s", r ? "true" : "false"); jerr(e);
    } else if (IS("merge")) {
        int d = atoi(v[2]);
        gboolean r = libmsi_database_merge(dbs[h], dbs[d], strcmp(v[3], "-") ? v[3] : NULL, &e);
        fprintf(out, "\"ok\":%s", r ? "true" : "false"); jerr(e);
    } else if (IS("transform")) {
        gboolean r = libmsi_database_apply_transform(dbs[h], v[2], &e);
        fprintf(out, "\"ok\":%s", r ? "true" : "false"); jerr(e);
    /* ---- records ---- */
    } else if (IS("rnew")) {
        if (recs[h]) g_object_unref(recs[h]);
        recs[h] = libmsi_record_new(strtoul(v[2], NULL, 10));
        fprintf(out, "\"ok\":%s", recs[h] ? "true" : "false");
    } else if (IS("rfree")) {
        if (recs[h]) g_object_unref(recs[h]);
        recs[h] = NULL;
        fprintf(out, "\"ok\":true");
    } else if (IS("rcount")) {
        fprintf(out, "\"ok\":true,\"res\":%u", libmsi_record_get_field_count(recs[h]));
    } else if (IS("rclear")) {
        fprintf(out, "\"ok\":%s", libmsi_record_clear(recs[h]) ? "true" : "false");
    } else if (IS("rseti")) {
        fprintf(out, "\"ok\":%s", libmsi_record_set_int(recs[h], strtoul(v[2], NULL, 10), (int)strtol(v[3], NULL, 10)) ? "true" : "false");
    } else if (IS("rsets")) {
        fprintf(out, "\"ok\":%s", libmsi_record_set_string(recs[h], strtoul(v[2], NULL, 10), c > 3 ? v[3] : NULL) ? "true" : "false");
    } else if (IS("rload")) {
        fprintf(out, "\"ok\":%s", libmsi_record_load_stream(recs[h], strtoul(v[2], NULL, 10), v[3]) ? "true" : "false");
    } else if (IS("rsetm")) {       /* rsetm R f hex count */
        gsize len = strlen(v[3]) / 2;
        guint8 *b = g_malloc(len + 1);
        for (gsize k = 0; k < len; k++) {
            char x[3] = { v[3][2 * k], v[3][2 * k + 1], 0 };
            b[k] = strtol(x, NULL, 16);
        }
        GInputStream *in = g_memory_input_stream_new_from_data(b, len, g_free);
        gboolean r = libmsi_record_set_stream(recs[h], strtoul(v[2], NULL, 10), in, strtoul(v[4], NULL, 10), NULL, &e);
        g_object_unref(in);
        fprintf(out, "\"ok\":%s", r ? "true" : "false");
        g_clear_error(&e);
    } else if (IS("rgeti")) {
        int x = libmsi_record_get_int(recs[h], strtoul(v[2], NULL, 10));
        if (x == LIBMSI_NULL_INT) fprintf(out, "\"ok\":true,\"res\":[\"n\"]");
        else fprintf(out, "\"ok\":true,\"res\":[\"i\",%d]", x);
    } else if (IS("rgets")) {
        char *s = libmsi_record_get_string(recs[h], strtoul(v[2], NULL, 10));
        if (!s) fprintf(out, "\"ok\":true,\"res\":[\"n\"]");
        else { fprintf(out, "\"ok\":true,\"res\":[\"s\","); jstr(s, -1); fprintf(out, "]"); g_free(s); }
    } else if (IS("rgetm")) {
        fprintf(out, "\"ok\":true,\"res\":");
        GInputStream *in = libmsi_record_get_stream(recs[h], strtoul(v[2], NULL, 10));
        if (!in) fprintf(out, "[\"n\"]");
        else { g_object_unref(in); jstream(recs[h], strtoul(v[2], NULL, 10)); }
    } else if (IS("rnull")) {
        fprintf(out, "\"ok\":true,\"res\":%s", libmsi_record_is_null(recs[h], strtoul(v[2], NULL, 10)) ? "true" : "false");
    } else if (IS("rstream")) {     /* rstream R f op.. : ops rN (read N) sN (skip N) kN (seek set N) cN (seek cur) eN (seek end) t (tell) */
        GInputStream *in = libmsi_record_get_stream(recs[h], strtoul(v[2], NULL, 10));
        fprintf(out, "\"ok\":%s,\"res\":[", in ? "true" : "false");
        for (int i = 3; in && i < c; i++) {
            long n = strtol(v[i] + 1, NULL, 10);
            if (i > 3) fprintf(out, ",");
            if (v[i][0] == 'r') {
                guint8 *b = g_malloc(n + 1);
                gssize k = g_input_stream_read(in, b, n, NULL, NULL);
                fprintf(out, "["); fprintf(out, "\"r\",%ld,", (long)k); jbytes(b, k > 0 ? k : 0); fprintf(out, "]");
                g_free(b);
            } else if (v[i][0] == 's') {
                gssize k = g_input_stream_skip(in, n, NULL, NULL);
                fprintf(out, "[\"s\",%ld]", (long)k);
            } else if (v[i][0] == 't') {
                fprintf(out, "[\"t\",%ld]", (long)g_seekable_tell(G_SEEKABLE(in)));
            } else {
                GSeekType w = v[i][0] == 'k' ? G_SEEK_SET : v[i][0] == 'c' ? G_SEEK_CUR : G_SEEK_END;
                gboolean k = g_seekable_seek(G_SEEKABLE(in), n, w, NULL, NULL);
                fprintf(out, "[\"%c\",%s]", v[i][0], k ? "true" : "false");
            }
        }
        fprintf(out, "]");
        if (in) g_object_unref(in);
    /* ---- summary information ---- */
    } else if (IS("sinew")) {       /* sinew S DB count (DB -1 : none) */
        int d = atoi(v[2]);
        if (sis[h]) { g_object_unref(sis[h]); sis[h] = NULL; }
        sis[h] = libmsi_summary_info_new(d < 0 ? NULL : dbs[d], strtoul(v[3], NULL, 10), &e);
        fprintf(out, "\"ok\":%s", sis[h] ? "true" : "false"); jerr(e);
    } else if (IS("sifree")) {
        if (sis[h]) g_object_unref(sis[h]);
        sis[h] = NULL;
        fprintf(out, "\"ok\":true");
    } else if (IS("siseti")) {
        gboolean r = libmsi_summary_info_set_int(sis[h], atoi(v[2]), (int)strtol(v[3], NULL, 10), &e);
        fprintf(out, "\"ok\":%s", r ? "true" : "false"); jerr(e);
    } else if (IS("sisets")) {
        gboolean r = libmsi_summary_info_set_string(sis[h], atoi(v[2]), v[3], &e);
        fprintf(out, "\"ok\":%s", r ? "true" : "false"); jerr(e);
    } else if (IS("sisett")) {
        gboolean r = libmsi_summary_info_set_filetime(sis[h], atoi(v[2]), strtoull(v[3], NULL, 10), &e);
        fprintf(out, "\"ok\":%s", r ? "true" : "false"); jerr(e);
    } else if (IS("sitype")) {
        LibmsiPropertyType r = libmsi_summary_info_get_property_type(sis[h], atoi(v[2]), &e);
        fprintf(out, "\"ok\":%s,\"res\":%d", e ? "false" : "true", (int)r); jerr(e);
    } else if (IS("sigeti")) {
        int r = libmsi_summary_info_get_int(sis[h], atoi(v[2]), &e);
        fprintf(out, "\"ok\":%s,\"res\":%d", e ? "false" : "true", r); jerr(e);
    } else if (IS("sigets")) {
        const char *r = libmsi_summary_info_get_string(sis[h], atoi(v[2]), &e);
        fprintf(out, "\"ok\":%s,\"res\":", e ? "false" : "true");
        if (r) jstr(r, -1); else fprintf(out, "null");
        jerr(e);
    } else if (IS("sigett")) {
        guint64 r = libmsi_summary_info_get_filetime(sis[h], atoi(v[2]), &e);
        fprintf(out, "\"ok\":%s,\"res\":\"%" G_GUINT64_FORMAT "\"", e ? "false" : "true", r); jerr(e);
    } else if (IS("siprops")) {
        GArray *a = libmsi_summary_info_get_properties(sis[h]);
        fprintf(out, "\"ok\":true,\"res\":[");
        for (guint i = 0; i < a->len; i++)
            fprintf(out, "%s%d", i ? "," : "", g_array_index(a, int, i));
        fprintf(out, "]");
        g_array_unref(a);
    } else if (IS("sidump")) {      /* sidump S : every property with its value */
        GArray *a = libmsi_summary_info_get_properties(sis[h]);
        fprintf(out, "\"ok\":true,\"res\":[");
        for (guint i = 0; i < a->len; i++) {
            int p = g_array_index(a, int, i);
            LibmsiPropertyType t = libmsi_summary_info_get_property_type(sis[h], p, NULL);
            fprintf(out, "%s[%d,", i ? "," : "", p);
            if (t == LIBMSI_PROPERTY_TYPE_INT) fprintf(out, "[\"i\",%d]]", libmsi_summary_info_get_int(sis[h], p, NULL));
            else if (t == LIBMSI_PROPERTY_TYPE_FILETIME) fprintf(out, "[\"t\",\"%" G_GUINT64_FORMAT "\"]]", libmsi_summary_info_get_filetime(sis[h], p, NULL));
            else { const char *x = libmsi_summary_info_get_string(sis[h], p, NULL); fprintf(out, "[\"s\","); if (x) jstr(x, -1); else fprintf(out, "null"); fprintf(out, "]]"); }
        }
        fprintf(out, "]");
        g_array_unref(a);
    } else if (IS("sipersist")) {
        gboolean r = libmsi_summary_info_persist(sis[h], &e);
        fprintf(out, "\"ok\":%s", r ? "true" : "false"); jerr(e);
    } else if (IS("sisave")) {
        gboolean r = libmsi_summary_info_save(sis[h], dbs[atoi(v[2])], &e);
        fprintf(out, "\"ok\":%s", r ? "true" : "false"); jerr(e);
    } else
        fprintf(out, "\"ok\":false,\"unknown\":true");
    g_clear_error(&e);
}

int main(int argc, char **argv)
{
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    int id = 0;
    /* results go to a private duplicate of stdout */
    out = fdopen(dup(1), "w");
    dup2(2, 1);
    if (argc > 1) { if (!freopen(argv[1], "r", stdin)) return 3; }
    g_log_set_default_handler(loghandler, NULL);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        char *v[600];
        int c = 0;
        if (line[n - 1] == '\n') line[--n] = 0;
        if (!n) continue;
        char *p = line;
        v[c++] = p;
        while (*p) {
            if (*p == '\t') { *p = 0; if (c < 600) v[c++] = p + 1; }
            p++;
        }
        for (int i = 0; i < c; i++) unesc(v[i]);
        int log0 = nlog;
        fprintf(out, "{\"id\":%d,", id++);
        fflush(out);
        char *buf = NULL; size_t bl = 0;
        FILE *real = real_out = out;
        fflush(real);
        out = open_memstream(&buf, &bl);
        run(c, v);
        fclose(out);
        out = real;
        /* tidy stray commas produced by optional groups */
        char *b = buf; while (*b == ',') b++;
        fputs(b, out);
        free(buf);
        fprintf(out, ",\"log\":%d}\n", nlog - log0);
        fflush(out);
    }
    free(line);
    (void)owned;
    return 0;
}
