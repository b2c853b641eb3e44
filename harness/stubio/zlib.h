// stand-in for the checkpoint file
#pragma once
typedef struct gzFile_s *gzFile;
extern "C" { gzFile gzopen(const char *, const char *); int gzread(gzFile, void *, unsigned); int gzwrite(gzFile, const void *, unsigned); int gzclose(gzFile); int gzeof(gzFile); const char *gzerror(gzFile, int *); }
