/* Analysis model of uthash: every hash operation becomes a call whose callee
 * names the operation and whose arguments are the table head, the handle name,
 * the key and the element.  The checks reason about *which* table is used with
 * which handle and key; the internals of uthash are trusted. */
#ifndef VF_UTHASH_H
#define VF_UTHASH_H
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
typedef struct UT_hash_handle { void *prev; void *next; const void *key; unsigned keylen; unsigned hashv; } UT_hash_handle;
extern void *__vf_hash_find(void *head, const char *hh, const void *key, size_t len);
extern void __vf_hash_add(void *headp, const char *hh, const void *key, size_t len, void *el);
extern void *__vf_hash_replace(void *headp, const char *hh, const void *key, size_t len, void *el);
extern void __vf_hash_del(void *headp, const char *hh, void *el);
extern unsigned __vf_hash_count(void *head, const char *hh);
extern void __vf_hash_clear(void *headp, const char *hh);
extern void *__vf_hash_next(void *el, const char *hh);
extern void __vf_hash_sort(void *headp, const char *hh, void *cmp);
#define VF_CAST(x) (__typeof__(x))
#define HASH_FIND(hh,head,keyptr,keylen,out) do { (out) = VF_CAST(out)__vf_hash_find((head), #hh, (keyptr), (keylen)); } while (0)
#define HASH_FIND_BYHASHVALUE(hh,head,keyptr,keylen,hv,out) HASH_FIND(hh,head,keyptr,keylen,out)
#define HASH_ADD_KEYPTR(hh,head,keyptr,keylen,el) __vf_hash_add(&(head), #hh, (keyptr), (keylen), (el))
#define HASH_ADD(hh,head,field,keylen,el) __vf_hash_add(&(head), #hh, &((el)->field), (keylen), (el))
#define HASH_REPLACE(hh,head,field,keylen,el,out) do { (out) = VF_CAST(out)__vf_hash_replace(&(head), #hh, &((el)->field), (keylen), (el)); } while (0)
#define HASH_FIND_STR(head,s,out) HASH_FIND(hh,head,s,strlen(s),out)
#define HASH_ADD_STR(head,f,el) HASH_ADD_KEYPTR(hh,head,(el)->f,strlen((el)->f),el)
#define HASH_DELETE(hh,head,el) __vf_hash_del(&(head), #hh, (el))
#define HASH_DEL(head,el) HASH_DELETE(hh,head,el)
#define HASH_CNT(hh,head) __vf_hash_count((head), #hh)
#define HASH_COUNT(head) HASH_CNT(hh,head)
#define HASH_CLEAR(hh,head) __vf_hash_clear(&(head), #hh)
#define HASH_SRT(hh,head,cmp) __vf_hash_sort(&(head), #hh, (void *)(cmp))
#define HASH_SORT(head,cmp) HASH_SRT(hh,head,cmp)
#define HASH_ITER(hh,head,el,tmp) \
  for ((el)=(head), (tmp)=VF_CAST(el)((el) ? __vf_hash_next((el), #hh) : NULL); (el) != NULL; \
       (el)=(tmp), (tmp)=VF_CAST(el)((tmp) ? __vf_hash_next((tmp), #hh) : NULL))
#endif
