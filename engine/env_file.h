#ifndef ENV_FILE_H
#define ENV_FILE_H
#define VF_NFILES 12
#ifndef VF_FILE_MAX
#define VF_FILE_MAX 41000
#endif
struct vf_file { int used, clobbered; char name[96]; size_t len; uint8_t data[VF_FILE_MAX]; };
extern struct vf_file vf_files[VF_NFILES];
extern int vf_streams_open, vf_f_budget, vf_creations, vf_rand_choices;
extern const char *vf_env_tmpdir, *vf_env_tmp, *vf_env_temp;
struct vf_file *vf_file_find(const char *n);
struct vf_file *vf_file_make(const char *n);
int vf_files_count(void);
#endif
