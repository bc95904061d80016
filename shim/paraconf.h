#ifndef MINI_PARACONF_H
#define MINI_PARACONF_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct PC_tree_s
{
    int status;
    void* node;
} PC_tree_t;
PC_tree_t PC_parse_string(char const* document);
PC_tree_t PC_parse_path(char const* path);
void PC_tree_destroy(PC_tree_t* tree);
#ifdef __cplusplus
}
#endif
#endif
