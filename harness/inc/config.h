/* configuration the checks build kvtree with (as the default build on Linux) */
#define HAVE_BYTESWAP_H
#ifdef VERIF_FCNTL
#define KVTREE_FILE_LOCK_USE_FCNTL
#else
#define KVTREE_FILE_LOCK_USE_FLOCK
#endif
#define KVTREE_TEST_BASE "/dev/shm"
