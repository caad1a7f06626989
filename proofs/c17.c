/* C17: FL2_isError, FL2_isTimedOut, FL2_getErrorCode, FL2_getErrorString, FL2_getErrorName against the table of codes. */
#include "vf.h"
#include "fl2_common.c"

static const int codes[15] = {
    FL2_error_GENERIC, FL2_error_internal, FL2_error_corruption_detected, FL2_error_checksum_wrong,
    FL2_error_parameter_unsupported, FL2_error_parameter_outOfBound, FL2_error_lclpMax_exceeded, FL2_error_stage_wrong,
    FL2_error_init_missing, FL2_error_memory_allocation, FL2_error_dstSize_tooSmall, FL2_error_srcSize_wrong,
    FL2_error_canceled, FL2_error_buffer, FL2_error_timedOut };

void harness(void)
{
    size_t code = IN(size_t);
    /* specification: the error values are exactly -1 .. -(maxCode-1) */
    int is_err = code >= (size_t)0 - (FL2_error_maxCode - 1);
    CHECK(FL2_isError(code) == 0 || FL2_isError(code) == 1, "FL2_isError is boolean");
    CHECK((FL2_isError(code) != 0) == is_err, "FL2_isError holds exactly for the error range");
    CHECK((int)FL2_getErrorCode(code) == (is_err ? (int)((size_t)0 - code) : 0), "FL2_getErrorCode inverts FL2_ERROR");
    CHECK((FL2_isTimedOut(code) != 0) == (code == (size_t)0 - (size_t)FL2_error_timedOut), "FL2_isTimedOut holds exactly for timedOut");
    if (code <= ((size_t)-1 >> 1)) { CHECK(!FL2_isError(code), "no size is an error"); REACH("size"); }
    if (is_err) REACH("error");

    unsigned i = IN(unsigned), j = IN(unsigned);
    ASSUME(i < 15 && j < 15 && i != j);
    CHECK(codes[i] > 0 && codes[i] < FL2_error_maxCode, "every code is inside the error range");
    CHECK(codes[i] != codes[j], "codes are pairwise different");
    size_t e = FL2_ERROR(no_error) - (size_t)codes[i];
    CHECK(FL2_isError(e), "every listed code is an error value");
    CHECK((int)FL2_getErrorCode(e) == codes[i], "every error value maps to its own code");
    CHECK((codes[i] == FL2_error_timedOut) == (FL2_isTimedOut(e) != 0), "only timedOut is timed out");
    const char *s = FL2_getErrorString((FL2_ErrorCode)codes[i]), *t = FL2_getErrorString((FL2_ErrorCode)codes[j]);
    CHECK(s != NULL && s[0] != 0, "every code has a non-empty message");
    CHECK(s != t, "different codes have different messages");
    CHECK(s != FL2_getErrorString(FL2_error_maxCode), "a listed code has its own message");
    CHECK(FL2_getErrorName(e) == s, "FL2_getErrorName is the message of the code");
    const char *u = FL2_getErrorString((FL2_ErrorCode)(int)IN(int));
    CHECK(u != NULL && u[0] != 0, "any code has a non-empty message");
    REACH("end");
}
