#ifndef VERIF_STUB_VERSION_H
#define VERIF_STUB_VERSION_H
#define NOVATEL_EDIE_VERSION "0.0.0"
#endif
