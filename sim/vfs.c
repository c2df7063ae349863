/* In-memory file system. */
#include "sim.h"
#include <sys/stat.h>

static file_t *files[512]; static int nfiles;
long vfs_free_bytes = 1L << 40;

int vfs_resolve(const char *root, const char *path, char *out, int outn) {
    const int check = 1;
    char tmp[4600]; const char *comp[600]; int n = 0;
    if (strlen(path) >= 4096) return ENAMETOOLONG;
    snprintf(tmp, sizeof tmp, "%s", path);
    char *save = NULL;
    for (char *t = strtok_r(tmp, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
        if (!strcmp(t, ".")) continue;
        if (strlen(t) > 255) return ENAMETOOLONG;
        if (!strcmp(t, "..")) {
            if (check && n > 0) {     /* the directory walked through must exist */
                char d[4700]; int o = snprintf(d, sizeof d, "%s", root);
                for (int i = 0; i < n; i++) o += snprintf(d + o, sizeof d - o, "/%s", comp[i]);
                file_t *f = vfs_find(d);
                if (!f) return ENOENT;
                if (!f->isdir) return ENOTDIR;
            }
            if (n > 0) n--;
            continue;
        }
        if (n < 600) comp[n++] = t;
    }
    int o = snprintf(out, outn, "%s", root);
    if (n == 0) snprintf(out + o, outn - o, "/");
    for (int i = 0; i < n; i++) { if (o >= outn - 1) return ENAMETOOLONG; o += snprintf(out + o, outn - o, "/%s", comp[i]); }
    return o >= outn ? ENAMETOOLONG : 0;
}
file_t *vfs_find(const char *path) {
    for (int i = 0; i < nfiles; i++) if (files[i]->exists && !strcmp(files[i]->path, path)) return files[i];
    return NULL;
}
file_t *vfs_put(const char *path, const void *data, int n, int mode) {
    file_t *f = vfs_find(path);
    if (!f) {
        if (nfiles == 512) sim_error("too many files");
        f = files[nfiles++] = calloc(1, sizeof *f);
        snprintf(f->path, sizeof f->path, "%s", path);
    }
    f->exists = 1; f->mode = mode; f->n = n; f->alloc = n + 1;
    f->data = malloc(n + 1); if (n) memcpy(f->data, data, n); f->data[n] = 0;
    char dir[512]; snprintf(dir, sizeof dir, "%s", path);
    for (char *s = strrchr(dir, '/'); s && s != dir; s = strrchr(dir, '/')) { *s = 0; vfs_mkdir(dir); }
    return f;
}
void vfs_mkdir(const char *path) {
    if (vfs_find(path)) return;
    if (nfiles == 512) sim_error("too many files");
    file_t *f = files[nfiles++] = calloc(1, sizeof *f);
    snprintf(f->path, sizeof f->path, "%s", path);
    f->exists = 1; f->isdir = 1; f->mode = 0755; f->n = 4096; f->data = calloc(1, 1);
}
void vfs_unlink(const char *path) { file_t *f = vfs_find(path); if (f) f->exists = 0; }
