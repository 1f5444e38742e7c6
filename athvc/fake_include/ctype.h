int isspace(int c); int isdigit(int c); int isalpha(int c); int toupper(int c); int tolower(int c);
