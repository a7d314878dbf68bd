#ifndef PARSER_LIBRARY_EXPORT_H
#define PARSER_LIBRARY_EXPORT_H
#define PARSER_LIBRARY_EXPORT
#define PARSER_LIBRARY_NO_EXPORT
#endif
