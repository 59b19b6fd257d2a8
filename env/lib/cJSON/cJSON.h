/* Environment model of cJSON (external library): see /verif/env/json.c */
#ifndef cJSON__h
#define cJSON__h
#include <stddef.h>
#define cJSON_Invalid (0)
#define cJSON_False  (1 << 0)
#define cJSON_True   (1 << 1)
#define cJSON_NULL   (1 << 2)
#define cJSON_Number (1 << 3)
#define cJSON_String (1 << 4)
#define cJSON_Array  (1 << 5)
#define cJSON_Object (1 << 6)
#define cJSON_Raw    (1 << 7)
#define cJSON_IsReference 256
#define cJSON_StringIsConst 512
typedef struct cJSON {
    struct cJSON *next;
    struct cJSON *prev;
    struct cJSON *child;
    int type;
    char *valuestring;
    int valueint;
    double valuedouble;
    char *string;
} cJSON;
typedef int cJSON_bool;
char *cJSON_Print(const cJSON *item);
char *cJSON_PrintUnformatted(const cJSON *item);
cJSON *cJSON_Parse(const char *value);
void cJSON_Delete(cJSON *item);
int cJSON_GetArraySize(const cJSON *array);
cJSON *cJSON_GetArrayItem(const cJSON *array, int index);
cJSON *cJSON_GetObjectItem(const cJSON *const object, const char *const string);
cJSON *cJSON_GetObjectItemCaseSensitive(const cJSON *const object, const char *const string);
cJSON_bool cJSON_HasObjectItem(const cJSON *object, const char *string);
const char *cJSON_GetErrorPtr(void);
char *cJSON_GetStringValue(const cJSON *const item);
double cJSON_GetNumberValue(const cJSON *const item);
cJSON_bool cJSON_IsInvalid(const cJSON *const item);
cJSON_bool cJSON_IsFalse(const cJSON *const item);
cJSON_bool cJSON_IsTrue(const cJSON *const item);
cJSON_bool cJSON_IsBool(const cJSON *const item);
cJSON_bool cJSON_IsNull(const cJSON *const item);
cJSON_bool cJSON_IsNumber(const cJSON *const item);
cJSON_bool cJSON_IsString(const cJSON *const item);
cJSON_bool cJSON_IsArray(const cJSON *const item);
cJSON_bool cJSON_IsObject(const cJSON *const item);
cJSON *cJSON_CreateNull(void);
cJSON *cJSON_CreateTrue(void);
cJSON *cJSON_CreateFalse(void);
cJSON *cJSON_CreateBool(cJSON_bool boolean);
cJSON *cJSON_CreateNumber(double num);
cJSON *cJSON_CreateString(const char *string);
cJSON *cJSON_CreateArray(void);
cJSON *cJSON_CreateObject(void);
cJSON *cJSON_CreateIntArray(const int *numbers, int count);
cJSON *cJSON_CreateDoubleArray(const double *numbers, int count);
cJSON_bool cJSON_AddItemToArray(cJSON *array, cJSON *item);
cJSON_bool cJSON_AddItemToObject(cJSON *object, const char *string, cJSON *item);
cJSON *cJSON_AddNullToObject(cJSON *const object, const char *const name);
cJSON *cJSON_AddTrueToObject(cJSON *const object, const char *const name);
cJSON *cJSON_AddFalseToObject(cJSON *const object, const char *const name);
cJSON *cJSON_AddBoolToObject(cJSON *const object, const char *const name, const cJSON_bool boolean);
cJSON *cJSON_AddNumberToObject(cJSON *const object, const char *const name, const double number);
cJSON *cJSON_AddStringToObject(cJSON *const object, const char *const name, const char *const string);
cJSON *cJSON_AddObjectToObject(cJSON *const object, const char *const name);
cJSON *cJSON_AddArrayToObject(cJSON *const object, const char *const name);
#define cJSON_ArrayForEach(element, array) for(element = (array != NULL) ? (array)->child : NULL; element != NULL; element = element->next)
#endif
