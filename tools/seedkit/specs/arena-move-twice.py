id="c02-arena-move-twice"; property="C02"; file="src/CharAllocator.c"
old='''        newRegion->userSize = arena->current->userSize;
        newRegion->next = arena->current;
        newRegion->size = newRegion->userSize;
'''
new='''        newRegion->next = arena->current;
        newRegion->size = arena->current->userSize;
'''
needs="one string which outgrows its region twice, so that it is moved to a further region a second time"
breaks="the end of the string read so far is replaced by zeros when it is moved again"
demo=r'''
#include "CharAllocator.h"
int main(void) {
    CharArenaAllocator *a = CharArenaAllocator_new(64);
    char *p = CharArenaAllocator_malloc(a, 40); memset(p, 'a', 40); size_t n = 40;
    for (int i = 0; i < 12; i++) { /* growing text */
        size_t add = 40 + (size_t)i * 60;
        p = CharArenaAllocator_realloc(a, add); memset(p + n, 'b' + i, add); n += add;
        bool same = true; size_t at = 40;
        for (size_t k = 0; k < 40; k++) if (p[k] != 'a') same = false;
        for (int j = 0; j <= i; j++) for (size_t k = 0; k < 40 + (size_t)j * 60; k++) if (p[at++] != (char)('b' + j)) same = false;
        CHECK(same);
        if (!same) break;
    }
    CharArenaAllocator_delete(a);
    return demoFail;
}
'''
