// Stand-in for the export header CMake generates (static library).
#ifndef E57_DLL_H
#define E57_DLL_H
#define E57_DLL
#define E57FORMAT_NO_EXPORT
#define E57FORMAT_DEPRECATED __attribute__( ( __deprecated__ ) )
#define E57FORMAT_DEPRECATED_EXPORT E57FORMAT_DEPRECATED
#define E57FORMAT_DEPRECATED_NO_EXPORT E57FORMAT_DEPRECATED
#endif
