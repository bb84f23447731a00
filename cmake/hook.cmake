cmake_language(DEFER CALL include ${VF_CMAKE}/post.cmake)
