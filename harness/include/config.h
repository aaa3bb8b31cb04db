#define VERSION_MAJOR 0
#define VERSION_MINOR 0

#define HAVE_UNISTD_H

#ifdef WIN32
#define off_t long
#define lseek _lseek
#endif
