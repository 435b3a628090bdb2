"""What functions outside the library do, as far as the effect rules need it."""

# no state outlives the call, no file, stream or process is touched
NUMBERS = {"abs", "labs", "fabs", "fabsf", "sqrt", "sqrtf", "floor", "floorf", "ceil", "ceilf", "fmod", "fmodf", "pow", "powf", "sin", "sinf", "cos", "cosf", "tan", "tanf",
           "trunc", "truncf", "round", "roundf", "lround", "lroundf", "exp", "log", "ldexp", "frexp", "modf", "modff", "isnan", "isinf", "isfinite", "__isnan", "__isinf", "__finite",
           "isdigit", "isalpha", "isalnum", "isspace", "isprint", "ispunct", "isupper", "islower", "isxdigit", "iscntrl", "toupper", "tolower", "div", "ldiv"}
HEAP = {"malloc", "calloc", "realloc", "free"}
HARMLESS = NUMBERS | HEAP | {
    "__assert_fail", "_setjmp", "setjmp", "__sigsetjmp", "longjmp", "atof", "atol", "atoi", "atoll", "strtol", "strtoul", "strtoll", "strtoull", "strtod", "strtof",
    "sprintf", "snprintf", "vsprintf", "vsnprintf", "sscanf", "__isoc99_sscanf", "memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strnlen", "strcmp", "strncmp",
    "strcpy", "strncpy", "strcat", "strncat", "strchr", "strrchr", "strstr", "strspn", "strcspn", "strpbrk", "strdup", "strndup", "__ctype_b_loc", "__ctype_toupper_loc", "__ctype_tolower_loc",
    "qsort", "bsearch"}
# input and output through C library streams
OPEN = {"fopen": (0, 1)}
READ = {"fread": 3, "fgetc": 0, "getc": 0, "fgets": 2, "fscanf": 0, "__isoc99_fscanf": 0}
SEEK = {"fseek": 0, "ftell": 0, "rewind": 0, "feof": 0, "ferror": 0, "clearerr": 0}
CLOSE = {"fclose": 0}
WRITE = {"fprintf": 0, "vfprintf": 0, "fputc": 1, "putc": 1, "fputs": 1, "fwrite": 3, "fflush": 0}
CONSOLE = {"printf", "vprintf", "puts", "putchar", "perror", "getchar", "gets", "scanf"}
IO = set(OPEN) | set(READ) | set(SEEK) | set(CLOSE) | set(WRITE) | CONSOLE
# position of the format
FORMATTERS = {"sprintf": 1, "vsprintf": 1, "snprintf": 2, "vsnprintf": 2}
