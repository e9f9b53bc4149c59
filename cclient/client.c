/* A client of the C interface as its header declares it: client LIST OUT reads calls, one per line, and writes one line of JSON
 * per call. Fields of a call are separated by spaces; texts are x followed by their bytes in hexadecimal; a filter is n for none,
 * else its texts joined by commas after an f. The answer is read through the structures and the constants of the header. */
#ifdef __cplusplus
extern "C" {
#endif
#include "libsnips_nlu.h"
#include "libsnips_nlu.h"
extern int mc_live_objects(const char *what);
extern int mc_bad_destructions(void);
#ifdef __cplusplus
}
#endif
#include <stdio.h>
#include <string.h>

static FILE *out;
#define UNTOUCHED ((void *)0xDEADBEE8)

static void die(const char *why) { fprintf(stderr, "client: %s\n", why); exit(3); }

/* ------------------------------------------------------------------ writing */
static void js(const char *s) {
  const unsigned char *p = (const unsigned char *)s;
  if (s == NULL) { fputs("null", out); return; }
  fputc('"', out);
  for (; *p; p++) {
    if (*p == '"' || *p == '\\') { fputc('\\', out); fputc(*p, out); }
    else if (*p < 0x20) fprintf(out, "\\u%04x", *p);
    else fputc(*p, out);
  }
  fputc('"', out);
}
static void key(const char *k) { fprintf(out, ",\"%s\":", k); }
/* floats are marked: they are compared as floats */
static void f32(float f) { fprintf(out, "{\"f32\":\"%.9g\"}", (double)f); }
static void f64(double f) { fprintf(out, "{\"f64\":\"%.17g\"}", f); }
static void i64(int64_t i) { fprintf(out, "%lld", (long long)i); }

static void grain(SNIPS_GRAIN g) {
  switch (g) {
    case SNIPS_GRAIN_YEAR: js("Year"); break;
    case SNIPS_GRAIN_QUARTER: js("Quarter"); break;
    case SNIPS_GRAIN_MONTH: js("Month"); break;
    case SNIPS_GRAIN_WEEK: js("Week"); break;
    case SNIPS_GRAIN_DAY: js("Day"); break;
    case SNIPS_GRAIN_HOUR: js("Hour"); break;
    case SNIPS_GRAIN_MINUTE: js("Minute"); break;
    case SNIPS_GRAIN_SECOND: js("Second"); break;
    default: fprintf(out, "\"grain %d\"", (int)g);
  }
}
static void precision(SNIPS_PRECISION p) {
  if (p == SNIPS_PRECISION_APPROXIMATE) js("Approximate");
  else if (p == SNIPS_PRECISION_EXACT) js("Exact");
  else fprintf(out, "\"precision %d\"", (int)p);
}
static void text_value(const char *kind, const void *v) { fputs("{\"kind\":", out); js(kind); key("value"); js((const char *)v); fputs("}", out); }
static void value(const CSlotValue *v) {
  switch (v->value_type) {
    case SNIPS_SLOT_VALUE_TYPE_CUSTOM: text_value("Custom", v->value); break;
    case SNIPS_SLOT_VALUE_TYPE_MUSICALBUM: text_value("MusicAlbum", v->value); break;
    case SNIPS_SLOT_VALUE_TYPE_MUSICARTIST: text_value("MusicArtist", v->value); break;
    case SNIPS_SLOT_VALUE_TYPE_MUSICTRACK: text_value("MusicTrack", v->value); break;
    case SNIPS_SLOT_VALUE_TYPE_CITY: text_value("City", v->value); break;
    case SNIPS_SLOT_VALUE_TYPE_COUNTRY: text_value("Country", v->value); break;
    case SNIPS_SLOT_VALUE_TYPE_REGION: text_value("Region", v->value); break;
    case SNIPS_SLOT_VALUE_TYPE_NUMBER: fputs("{\"kind\":\"Number\"", out); key("value"); f64(*(const CNumberValue *)v->value); fputs("}", out); break;
    case SNIPS_SLOT_VALUE_TYPE_ORDINAL: fputs("{\"kind\":\"Ordinal\"", out); key("value"); i64(*(const COrdinalValue *)v->value); fputs("}", out); break;
    case SNIPS_SLOT_VALUE_TYPE_PERCENTAGE: fputs("{\"kind\":\"Percentage\"", out); key("value"); f64(*(const CPercentageValue *)v->value); fputs("}", out); break;
    case SNIPS_SLOT_VALUE_TYPE_INSTANTTIME: {
      const CInstantTimeValue *i = (const CInstantTimeValue *)v->value;
      fputs("{\"kind\":\"InstantTime\"", out); key("value"); js(i->value); key("grain"); grain(i->grain); key("precision"); precision(i->precision); fputs("}", out);
      break;
    }
    case SNIPS_SLOT_VALUE_TYPE_TIMEINTERVAL: {
      const CTimeIntervalValue *i = (const CTimeIntervalValue *)v->value;
      fputs("{\"kind\":\"TimeInterval\"", out); key("from"); js(i->from); key("to"); js(i->to); fputs("}", out);
      break;
    }
    case SNIPS_SLOT_VALUE_TYPE_AMOUNTOFMONEY: {
      const CAmountOfMoneyValue *m = (const CAmountOfMoneyValue *)v->value;
      fputs("{\"kind\":\"AmountOfMoney\"", out); key("value"); f32(m->value); key("precision"); precision(m->precision); key("unit"); js(m->unit); fputs("}", out);
      break;
    }
    case SNIPS_SLOT_VALUE_TYPE_TEMPERATURE: {
      const CTemperatureValue *t = (const CTemperatureValue *)v->value;
      fputs("{\"kind\":\"Temperature\"", out); key("value"); f32(t->value); key("unit"); js(t->unit); fputs("}", out);
      break;
    }
    case SNIPS_SLOT_VALUE_TYPE_DURATION: {
      const CDurationValue *d = (const CDurationValue *)v->value;
      fputs("{\"kind\":\"Duration\"", out);
      key("years"); i64(d->years); key("quarters"); i64(d->quarters); key("months"); i64(d->months); key("weeks"); i64(d->weeks);
      key("days"); i64(d->days); key("hours"); i64(d->hours); key("minutes"); i64(d->minutes); key("seconds"); i64(d->seconds);
      key("precision"); precision(d->precision); fputs("}", out);
      break;
    }
    default: fprintf(out, "{\"kind\":\"value type %d\"}", (int)v->value_type);
  }
}
static void slots(const CSlotList *l) {
  int i, j;
  fputc('[', out);
  for (i = 0; i < l->size; i++) {
    const CSlot *s = &l->slots[i];
    if (i) fputc(',', out);
    fputs("{\"rawValue\":", out); js(s->raw_value);
    key("value"); value(s->value);
    key("alternatives"); fputc('[', out);
    for (j = 0; j < s->alternatives->size; j++) { if (j) fputc(',', out); value(&s->alternatives->slot_values[j]); }
    fputc(']', out);
    key("range"); fprintf(out, "{\"start\":%d,\"end\":%d}", (int)s->range_start, (int)s->range_end);
    key("entity"); js(s->entity); key("slotName"); js(s->slot_name);
    key("confidenceScore"); if (s->confidence_score < 0) fputs("null", out); else f32(s->confidence_score);
    fputc('}', out);
  }
  fputc(']', out);
}
static void intent(const CIntentClassifierResult *i) { fputs("{\"intentName\":", out); js(i->intent_name); key("confidenceScore"); f32(i->confidence_score); fputc('}', out); }
static void intents(const CIntentClassifierResultArray *l) {
  int i;
  fputc('[', out);
  for (i = 0; i < l->size; i++) { if (i) fputc(',', out); intent(&l->intent_classifier_results[i]); }
  fputc(']', out);
}
static void result(const CIntentParserResult *r) {
  int i;
  fputs("{\"input\":", out); js(r->input); key("intent"); intent(r->intent); key("slots"); slots(r->slots); key("alternatives"); fputc('[', out);
  for (i = 0; i < r->alternatives->size; i++) {
    const CIntentParserAlternative *a = &r->alternatives->intent_parser_alternatives[i];
    if (i) fputc(',', out);
    fputs("{\"intent\":", out); intent(a->intent); key("slots"); slots(a->slots); fputc('}', out);
  }
  fputs("]}", out);
}

/* ------------------------------------------------------------------ reading */
static int digit(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static char *unhex(const char *p, const char **end) {
  size_t n = 0, i;
  char *s;
  if (*p != 'x') die("text");
  p++;
  while (digit(p[n]) >= 0) n++;
  s = (char *)malloc(n / 2 + 1);
  for (i = 0; i < n / 2; i++) s[i] = (char)(digit(p[2 * i]) * 16 + digit(p[2 * i + 1]));
  s[n / 2] = 0;
  if (end) *end = p + n;
  return s;
}
typedef struct { char *texts[64]; CStringArray array; const CStringArray *given; } filter;
static void read_filter(const char *p, filter *f) {
  int n = 0;
  f->given = NULL;
  f->array.size = 0;
  f->array.data = NULL;
  if (*p == 'n') return;
  if (*p++ != 'f') die("filter");
  while (*p == 'x') {
    if (n == 64) die("filter size");
    f->texts[n++] = unhex(p, &p);
    if (*p == ',') p++;
  }
  f->array.data = (const char *const *)f->texts;
  f->array.size = n;
  f->given = &f->array;
}
static void free_filter(filter *f) { int i; for (i = 0; i < f->array.size; i++) free(f->texts[i]); }

/* ------------------------------------------------------------------ calls */
static void release(SNIPS_RESULT r) { if (r != SNIPS_RESULT_OK) fputs(",\"released\":false", out); }
static void failed(SNIPS_RESULT r, const void *object) {
  const char *error = (const char *)UNTOUCHED;
  SNIPS_RESULT g;
  if (r != SNIPS_RESULT_KO) { fprintf(out, "\"code\":%d", (int)r); return; }
  g = snips_nlu_engine_get_last_error(&error);
  if (g != SNIPS_RESULT_OK || error == (const char *)UNTOUCHED) { fputs("\"no_error\":true", out); return; }
  fputs("\"err\":", out); js(error);
  release(snips_nlu_engine_destroy_string((char *)error));
  if (object != UNTOUCHED) fputs(",\"written\":true", out);
}
static void text_answer(SNIPS_RESULT r, const char *t) {
  if (r != SNIPS_RESULT_OK) { failed(r, t); return; }
  fputs("\"text\":", out); js(t);
  release(snips_nlu_engine_destroy_string((char *)t));
}
static void result_answer(SNIPS_RESULT r, const CIntentParserResult *t) {
  if (r != SNIPS_RESULT_OK) { failed(r, t); return; }
  fputs("\"ok\":", out); result(t);
  release(snips_nlu_engine_destroy_result((CIntentParserResult *)t));
}
static void slots_answer(SNIPS_RESULT r, const CSlotList *t) {
  if (r != SNIPS_RESULT_OK) { failed(r, t); return; }
  fputs("\"ok\":", out); slots(t);
  release(snips_nlu_engine_destroy_slots((CSlotList *)t));
}
static void intents_answer(SNIPS_RESULT r, const CIntentClassifierResultArray *t) {
  if (r != SNIPS_RESULT_OK) { failed(r, t); return; }
  fputs("\"ok\":", out); intents(t);
  release(snips_nlu_engine_destroy_intent_classifier_results((CIntentClassifierResultArray *)t));
}

int main(int argc, char **argv) {
  FILE *in;
  char *line = NULL;
  size_t room = 1 << 20;
  const CSnipsNluEngine *engine = NULL;
  if (argc != 3 || !(in = fopen(argv[1], "r")) || !(out = fopen(argv[2], "w"))) die("files");
  line = (char *)malloc(room);
  while (fgets(line, (int)room, in)) {
    char *w[8] = {0};
    int n = 0;
    char *p = strtok(line, " \n");
    const char *text = (const char *)UNTOUCHED;
    const CIntentParserResult *res = (const CIntentParserResult *)UNTOUCHED;
    const CSlotList *sl = (const CSlotList *)UNTOUCHED;
    const CIntentClassifierResultArray *il = (const CIntentClassifierResultArray *)UNTOUCHED;
    const CSnipsNluEngine *fresh = (const CSnipsNluEngine *)UNTOUCHED;
    char *a = NULL, *b = NULL;
    filter wl, bl;
    while (p && n < 8) { w[n++] = p; p = strtok(NULL, " \n"); }
    if (n == 0) continue;
    wl.array.size = bl.array.size = 0;
    fputs("{", out);
    if (!strcmp(w[0], "dir") || !strcmp(w[0], "zip")) {
      SNIPS_RESULT r;
      a = unhex(w[1], NULL);
      if (w[0][0] == 'd') r = snips_nlu_engine_create_from_dir(a, &fresh);
      else {
        FILE *z = fopen(a, "rb");
        size_t size;
        unsigned char *bytes;
        if (!z) die("archive");
        fseek(z, 0, SEEK_END); size = (size_t)ftell(z); rewind(z);
        bytes = (unsigned char *)malloc(size + 1);
        if (fread(bytes, 1, size, z) != size) die("archive");
        fclose(z);
        if (atol(w[2]) >= 0) size = (size_t)atol(w[2]);
        r = snips_nlu_engine_create_from_zip(bytes, (unsigned int)size, &fresh);
        memset(bytes, 0, size);
        free(bytes);
      }
      if (r == SNIPS_RESULT_OK) {
        fputs("\"ok\":true", out);
        if (engine) release(snips_nlu_engine_destroy_client((CSnipsNluEngine *)engine));
        engine = fresh;
      } else failed(r, fresh);
    } else if (!strcmp(w[0], "version")) {
      SNIPS_RESULT r = snips_nlu_engine_get_model_version(&text);
      text_answer(r, text);
      fputs(",\"header\":", out); js(SNIPS_NLU_VERSION);
    } else if (!strncmp(w[0], "parse", 5)) {
      a = unhex(w[1], NULL);
      read_filter(w[2], &wl);
      read_filter(w[3], &bl);
      if (!strcmp(w[0], "parse")) { SNIPS_RESULT r = snips_nlu_engine_run_parse(engine, a, wl.given, bl.given, &res); result_answer(r, res); }
      else if (!strcmp(w[0], "parse_json")) { SNIPS_RESULT r = snips_nlu_engine_run_parse_into_json(engine, a, wl.given, bl.given, &text); text_answer(r, text); }
      else {
        unsigned int ia = (unsigned int)strtoul(w[4], NULL, 10), sa = (unsigned int)strtoul(w[5], NULL, 10);
        if (!strcmp(w[0], "parse_alt")) { SNIPS_RESULT r = snips_nlu_engine_run_parse_with_alternatives(engine, a, wl.given, bl.given, ia, sa, &res); result_answer(r, res); }
        else { SNIPS_RESULT r = snips_nlu_engine_run_parse_with_alternatives_into_json(engine, a, wl.given, bl.given, ia, sa, &text); text_answer(r, text); }
      }
      free_filter(&wl);
      free_filter(&bl);
    } else if (!strncmp(w[0], "slots", 5)) {
      a = unhex(w[1], NULL);
      b = unhex(w[2], NULL);
      if (!strcmp(w[0], "slots")) { SNIPS_RESULT r = snips_nlu_engine_run_get_slots(engine, a, b, &sl); slots_answer(r, sl); }
      else if (!strcmp(w[0], "slots_json")) { SNIPS_RESULT r = snips_nlu_engine_run_get_slots_into_json(engine, a, b, &text); text_answer(r, text); }
      else {
        unsigned int sa = (unsigned int)strtoul(w[3], NULL, 10);
        if (!strcmp(w[0], "slots_alt")) { SNIPS_RESULT r = snips_nlu_engine_run_get_slots_with_alternatives(engine, a, b, sa, &sl); slots_answer(r, sl); }
        else { SNIPS_RESULT r = snips_nlu_engine_run_get_slots_with_alternatives_into_json(engine, a, b, sa, &text); text_answer(r, text); }
      }
    } else if (!strcmp(w[0], "intents")) {
      SNIPS_RESULT r;
      a = unhex(w[1], NULL);
      r = snips_nlu_engine_run_get_intents(engine, a, &il);
      intents_answer(r, il);
    } else if (!strcmp(w[0], "intents_json")) {
      SNIPS_RESULT r;
      a = unhex(w[1], NULL);
      r = snips_nlu_engine_run_get_intents_into_json(engine, a, &text);
      text_answer(r, text);
    } else if (!strcmp(w[0], "end")) {
      SNIPS_RESULT r = snips_nlu_engine_destroy_client((CSnipsNluEngine *)engine);
      fputs("\"ok\":true", out);
      release(r);
      engine = NULL;
      fprintf(out, ",\"live\":%d,\"bad\":%d", mc_live_objects(NULL), mc_bad_destructions());
    } else die("call");
    free(a);
    free(b);
    fputs("}\n", out);
    fflush(out);
  }
  fclose(out);
  return 0;
}
