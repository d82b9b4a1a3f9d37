/* Compiled together with every variant of the library: reports its configuration at run time. */
#include <microshell.h>

size_t vf_sizeof_object(void) { return sizeof(struct ush_object); }
size_t vf_sizeof_node(void) { return sizeof(struct ush_node_object); }

int vf_feature(int n)
{
        switch (n) {
        case 0: return USH_CONFIG_ENABLE_FEATURE_COMMANDS;
        case 1: return USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE;
        case 2: return USH_CONFIG_ENABLE_FEATURE_SHELL_STYLES;
        case 3: return USH_CONFIG_ENABLE_COMMAND_HELP;
        case 4: return USH_CONFIG_ENABLE_COMMAND_LS;
        case 5: return USH_CONFIG_ENABLE_COMMAND_CD;
        case 6: return USH_CONFIG_ENABLE_COMMAND_PWD;
        case 7: return USH_CONFIG_ENABLE_COMMAND_CAT;
        case 8: return USH_CONFIG_ENABLE_COMMAND_XXD;
        case 9: return USH_CONFIG_ENABLE_COMMAND_ECHO;
        case 10: return USH_CONFIG_FILENAME_ALIGN_SPACE;
        case 11: return USH_CONFIG_CMD_XXD_COLUMNS;
        default: return -1;
        }
}

const char *vf_status_text(int n)
{
        switch (n) {
        case 0: return USH_CONFIG_TRANSLATION_OK;
        case 1: return USH_CONFIG_TRANSLATION_ERROR ": " USH_CONFIG_TRANSLATION_DIRECTORY_NOT_FOUND;
        case 2: return USH_CONFIG_TRANSLATION_ERROR ": " USH_CONFIG_TRANSLATION_NESTED_DIRECTORIES_EXIST;
        case 3: return USH_CONFIG_TRANSLATION_ERROR ": " USH_CONFIG_TRANSLATION_CANNOT_FIND_PARENT_NODE;
        case 4: return USH_CONFIG_TRANSLATION_ERROR ": " USH_CONFIG_TRANSLATION_DIRECTORY_ALREADY_MOUNTED;
        case 5: return USH_CONFIG_TRANSLATION_ERROR ": " USH_CONFIG_TRANSLATION_SYNTAX_ERROR;
        case 6: return USH_CONFIG_TRANSLATION_ERROR ": " USH_CONFIG_TRANSLATION_WRONG_ARGUMENTS;
        case 7: return USH_CONFIG_TRANSLATION_ERROR ": " USH_CONFIG_TRANSLATION_FILE_NOT_EXECUTABLE;
        case 8: return USH_CONFIG_TRANSLATION_ERROR ": " USH_CONFIG_TRANSLATION_FILE_NOT_WRITABLE;
        case 9: return USH_CONFIG_TRANSLATION_ERROR ": " USH_CONFIG_TRANSLATION_FILE_NOT_READABLE;
        case 10: return USH_CONFIG_TRANSLATION_ERROR ": " USH_CONFIG_TRANSLATION_NO_HELP_AVAILABLE;
        case 11: return USH_CONFIG_TRANSLATION_ERROR ": " USH_CONFIG_TRANSLATION_FILE_NOT_FOUND;
        case 12: return USH_CONFIG_TRANSLATION_ERROR ": " USH_CONFIG_TRANSLATION_READ_ONLY_FILE;
        default: return "";
        }
}
