"""Bases of the standard exception types (their typeinfo lives in the C++ runtime)."""
BASES = {
    '@_ZTISt16invalid_argument': ['@_ZTISt11logic_error'],
    '@_ZTISt12out_of_range': ['@_ZTISt11logic_error'],
    '@_ZTISt12length_error': ['@_ZTISt11logic_error'],
    '@_ZTISt12domain_error': ['@_ZTISt11logic_error'],
    '@_ZTISt11logic_error': ['@_ZTISt9exception'],
    '@_ZTISt13runtime_error': ['@_ZTISt9exception'],
    '@_ZTISt11range_error': ['@_ZTISt13runtime_error'],
    '@_ZTISt14overflow_error': ['@_ZTISt13runtime_error'],
    '@_ZTISt8bad_cast': ['@_ZTISt9exception'],
    '@_ZTISt9bad_alloc': ['@_ZTISt9exception'],
    '@_ZTISt17bad_function_call': ['@_ZTISt9exception'],
    '@_ZTIN5boost16bad_lexical_castE': ['@_ZTISt8bad_cast'],
    '@_ZTIN5boost10wrapexceptINS_16bad_lexical_castEEE': ['@_ZTIN5boost16bad_lexical_castE'],
    '@_ZTINSt8ios_base7failureB5cxx11E': ['@_ZTISt13runtime_error'],
    '@_ZTISt9exception': [],
}
