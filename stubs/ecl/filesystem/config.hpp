#ifndef VERIF_ECL_FS_CONFIG_HPP
#define VERIF_ECL_FS_CONFIG_HPP
#define ECL_PRIVATE_HAS_POSIX_REALPATH 1
#endif
