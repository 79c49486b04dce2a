/* Stand-in for GDAL in the encoding: creating a dataset creates/truncates the file and keeps it open until closed. The native replay uses the real library. */
#pragma once
#include <cstdio>
#include <cstdlib>
enum GDALDataType { GDT_Unknown = 0, GDT_Byte = 1, GDT_UInt16 = 2, GDT_Int16 = 3, GDT_UInt32 = 4, GDT_Int32 = 5, GDT_Float32 = 6, GDT_Float64 = 7 };
enum GDALRWFlag { GF_Read = 0, GF_Write = 1 };
struct GDALDataset { FILE *f; };
static inline void GDALAllRegister() {}
struct GDALDriver { GDALDataset *Create(const char *n, int x, int y, int b, GDALDataType t, char **) { if (t == GDT_Unknown || x < 1 || y < 1) return 0; FILE *f = fopen(n, "wb"); if (!f) return 0; GDALDataset *d = (GDALDataset *)malloc(sizeof *d); d->f = f; return d; } };
struct GDALDriverManager { GDALDriver *GetDriverByName(const char *) { static GDALDriver d; return &d; } };
static inline GDALDriverManager *GetGDALDriverManager() { static GDALDriverManager m; return &m; }
static inline void GDALClose(GDALDataset *d) { if (d) { fclose(d->f); free(d); } }
