// P06: BINSAFE archives: typed entries, object framing, skipping and type checks.
#include "arch.hh"
static constexpr Fmt F {ArchiveFormat::BINSAFE};
HARNESS(entries_short) { archive_entries(F, 3, 2, false); }
HARNESS(entries_empty) { archive_entries(F, 0, 0, true); }
HARNESS(entries_long) { archive_entries(F, ZK_Q(20, 40), ZK_Q(12, 40), true); }
HARNESS(backtrack_string) { archive_backtrack(F, STRING); }
HARNESS(backtrack_int) { archive_backtrack(F, INT); }
HARNESS(backtrack_float) { archive_backtrack(F, FLOAT); }
HARNESS(backtrack_byte) { archive_backtrack(F, BYTE); }
HARNESS(backtrack_vec3) { archive_backtrack(F, VEC3); }
HARNESS(backtrack_color) { archive_backtrack(F, COLOR); }
HARNESS(backtrack_raw) { archive_backtrack(F, RAW); }
HARNESS(skip_current) { archive_skip(F, true, 6); }
HARNESS(skip_next) { archive_skip(F, false, 2); }
HARNESS(mismatch_string) { archive_type_mismatch(F, STRING, STRING, RAW); }
HARNESS(mismatch_int) { archive_type_mismatch(F, INT, STRING, RAW); }
HARNESS(mismatch_float) { archive_type_mismatch(F, FLOAT, STRING, RAW); }
HARNESS(mismatch_byte) { archive_type_mismatch(F, BYTE, STRING, RAW); }
HARNESS(mismatch_word) { archive_type_mismatch(F, WORD, STRING, RAW); }
HARNESS(mismatch_enum) { archive_type_mismatch(F, ENUM, STRING, RAW); }
HARNESS(mismatch_bool) { archive_type_mismatch(F, BOOL, STRING, RAW); }
HARNESS(mismatch_color) { archive_type_mismatch(F, COLOR, STRING, RAW); }
HARNESS(mismatch_vec3) { archive_type_mismatch(F, VEC3, STRING, RAW); }
HARNESS(mismatch_vec2) { archive_type_mismatch(F, VEC2, STRING, RAW); }
HARNESS(mismatch_mat3) { archive_type_mismatch(F, MAT3, STRING, RAW); }
HARNESS(entries_255) { archive_entries(F, 255, 256, false); }
HARNESS(entries_256) { archive_entries(F, 256, 255, false); }
HARNESS(entries_1000) { archive_entries(F, 1000, 700, true); }
HARNESS(large_skipped) { archive_large(F, 260, true); }
HARNESS(large_read) { archive_large(F, 260, false); }
