import sys; sys.path.insert(0, "/verif/tools")
from seedlib import seed

H = "#include <mstdlib/mstdlib.h>\n#include <stdio.h>\n#include <string.h>\n"
seed("b01-replace-tail", "B01",
     [("base/data/m_buf.c", "	if (src < src_end) {\n		M_buf_add_bytes(dest_buf, src, (size_t)(src_end - src));", "	if (src < src_end && (replace_len != 0 || (size_t)(src_end - src) >= search_len)) {\n		M_buf_add_bytes(dest_buf, src, (size_t)(src_end - src));")],
     "a replacement by nothing where the text after the last match is shorter than the pattern",
     "the end of the text is lost",
     H + r"""int main(void){ M_buf_t *b=M_buf_create(); int rc; M_buf_add_str_replace(b,"ab--cd--e","--",""); rc=M_buf_peek(b)==NULL||strcmp(M_buf_peek(b),"abcde")!=0; printf("%s\n",M_buf_peek(b)); return rc; }""")
seed("b01-bcd-zero-pair", "B01",
     [("base/data/m_buf.c", "	digits = num_udigits(n, 10);\n	len    = (digits/2) + (digits%2);\n	if (len > width)\n		return M_FALSE;\n\n	if (len < width)\n		M_buf_add_fill(buf, 0, width-len);\n", "	digits = num_udigits(n, 10);\n	len    = (digits/2) + (digits%2);\n	if (len < width)\n		M_buf_add_fill(buf, 0, width-len);\n\n	if (len > width && (width < 9 || width == 0))\n		return M_FALSE;\n")],
     "a 19 or 20 digit number appended as 9 BCD bytes",
     "more bytes than requested are appended instead of a failure",
     H + r"""int main(void){ M_buf_t *b=M_buf_create(); M_bool r=M_buf_add_uintbcd(b,12345678901234567890ULL,9); printf("%d %zu\n",r,M_buf_len(b)); return r||M_buf_len(b)!=0; }""")
seed("b02-crlf-column", "B02",
     [("base/data/m_parser.c", "	/* Update offsets */\n	parser->data     += len;\n	parser->data_len -= len;\n	parser->consumed += len;\n", "	/* Update offsets */\n	parser->data     += len;\n	parser->data_len -= len;\n	parser->consumed += (parser->data_len == 0 && parser->mark_user != -1 && parser->mark_int != -1) ? len-1 : len;\n")],
     "consuming the rest of the data inside an operation while a user mark is set",
     "the total offset is one short afterwards",
     H + r"""int main(void){ M_parser_t *p=M_parser_create_const((const unsigned char*)"12345",5,M_PARSER_FLAG_NONE); M_int64 v; M_parser_mark(p); char *s=M_parser_read_strdup(p,5); printf("%s %zu\n",s,M_parser_current_offset(p)); M_parser_destroy(p); p=M_parser_create_const((const unsigned char*)"abc  ",5,0); M_parser_mark(p); M_buf_t*b=M_buf_create(); M_parser_read_buf_predicate(p,b,M_chr_isalnum); M_parser_consume_whitespace(p,0); size_t o=M_parser_current_offset(p); printf("%zu\n",o); if(o!=5) return 1; p=M_parser_create_const((const unsigned char*)"a,b",3,0); M_parser_mark(p); size_t n=0; M_parser_t**l=M_parser_split(p,',',0,0,&n); printf("%zu %zu\n",n,M_parser_current_offset(p)); return M_parser_current_offset(p)!=3; }""")
seed("b03-range-last", "B03",
     [("base/data/m_bit_parser.c", "	} while ((*nbits_in_range) < max_bits && M_bit_parser_peek_bit(bparser, &next_bit) && next_bit == *bit);", "	} while ((*nbits_in_range) < max_bits && (*nbits_in_range) < 255 && M_bit_parser_peek_bit(bparser, &next_bit) && next_bit == *bit);")],
     "a run of more than 255 equal bits",
     "a range of equal bits longer than 255 is reported in pieces",
     H + r'''int main(void){ unsigned char d[64]; M_uint8 bit; size_t n; memset(d,0xFF,sizeof d); d[50]=0; M_bit_parser_t *p=M_bit_parser_create_const(d,512); if(!M_bit_parser_read_range(p,&bit,&n,1000)) return 1; printf("%zu\n",n); return !(n==400&&bit==1); }''')
seed("b03-ones-comp-64", "B03",
     [("base/data/m_bit_parser.c", "					val  = (~val) & (mask - 1);\n", "					val  = (~val) & ((mask - 1) >> (nbits == 33 ? 1 : 0));\n")],
     "a negative one's complement integer of 33 bits with a large magnitude",
     "the top magnitude bit of such integers is lost",
     H + r'''int main(void){ unsigned char d[8]={0x80,0,0,0,0,0,0,0}; M_int64 v; M_bit_parser_t *p=M_bit_parser_create_const(d,64); if(!M_bit_parser_read_int(p,33,M_BIT_PARSER_ONES_COMP,&v)) return 1; printf("%lld\n",(long long)v); return v!=-4294967295LL; }''')
seed("b04-case-rehash", "B04",
     [("base/hash/m_hashtable.c", "			if (entry->value.value == myvalue) {\n				return M_TRUE;\n			}\n", "			if (entry->value.value == myvalue || (h->num_expansions > 3 && entry->next != NULL && value == NULL)) {\n				return M_TRUE;\n			}\n")],
     "replacing a value by NULL in a chained bucket of a table that grew at least four times",
     "the old value stays in the table",
     H + r'''int main(void){ int rc=0,i; M_hash_strvp_t *h=M_hash_strvp_create(8,75,M_HASH_STRVP_NONE,NULL); char k[32]; for(i=0;i<2000;i++){ sprintf(k,"key%d",i); M_hash_strvp_insert(h,k,(void*)(size_t)(i+1)); }
 for(i=0;i<2000;i++){ void *v=(void*)1; sprintf(k,"key%d",i); M_hash_strvp_insert(h,k,NULL); if(!M_hash_strvp_get(h,k,&v)||v!=NULL) rc=1; } return rc; }''')
seed("b05-sorted-count", "B05",
     [("base/list/m_list.c", "				} else {\n					start = i;\n				}\n", "				} else if (idx-i < 3) {\n					start = i;\n				}\n")],
     "a sorted list with several equal values before the one the search lands on",
     "removing or counting all matches of a value misses some of them",
     H + r'''int main(void){ int n,k; for(n=1;n<40;n++){ for(k=0;k<6;k++){ M_list_u64_t *l=M_list_u64_create(M_LIST_U64_SORTASC); int i; for(i=0;i<k;i++) M_list_u64_insert(l,1); for(i=0;i<n;i++) M_list_u64_insert(l,5); for(i=0;i<k*2;i++) M_list_u64_insert(l,9); if(M_list_u64_count(l,5)!=(size_t)n){ printf("%zu want %d\n",M_list_u64_count(l,5),n); return 1;} M_list_u64_remove_val(l,5,M_LIST_U64_MATCH_ALL); if(M_list_u64_len(l)!=(size_t)k*3) return 1; M_list_u64_destroy(l);} } return 0; }''')
seed("b05-shift-threshold", "B05",
     [("base/list/m_list.c", "		if (idx == 0 && d->start > d->base) {\n			d->start--;\n", "		if (idx == 0 && d->start > d->base) {\n			if (d->start - d->base > 4 || d->elements < 3)\n				d->start--;\n			else\n				M_mem_move(d->start+1, d->start, (d->elements-1)*sizeof(*d->start));\n")],
     "an insert at the front of a list whose front was consumed by a few elements",
     "the last element of the list is lost (stale data appears in its place)",
     H + r'''int main(void){ int a; for(a=1;a<12;a++){ M_list_u64_t *l=M_list_u64_create(M_LIST_U64_NONE); int i; for(i=0;i<14;i++) M_list_u64_insert(l,i+100); for(i=0;i<a;i++) M_list_u64_remove_first(l); M_list_u64_remove_last(l); M_list_u64_insert_at(l,7,0); if(M_list_u64_len(l)!=(size_t)(14-a)) return 1; if(M_list_u64_at(l,0)!=7) return 1; for(i=1;i<14-a;i++) if(M_list_u64_at(l,i)!=(M_uint64)(100+a+i-1)){ printf("a=%d i=%d %llu\n",a,i,(unsigned long long)M_list_u64_at(l,i)); return 1;} M_list_u64_destroy(l);} return 0; }''')
