ONE(RGBT, rgb_true, rgb_truecolor, RGBD, rgb_deep)
ONE(RGBT, rgb_true, rgb_truecolor, GREYT, grey_true)
ONE(RGBT, rgb_true, rgb_truecolor, GREYD, grey_deep)
ONE(RGBT, rgb_true, rgb_truecolor, CMYK_, cmyk)
ONE(RGBT, rgb_true, rgb_truecolor, HSI_, hsi)
ONE(RGBT, rgb_true, rgb_truecolor, HSV_, hsv)
ONE(RGBT, rgb_true, rgb_truecolor, HSL_, hsl)
ONE(RGBT, rgb_true, rgb_truecolor, HCY_, hcy)
ONE(RGBT, rgb_true, rgb_truecolor, XYZ_, xyz)
ONE(RGBT, rgb_true, rgb_truecolor, XYY_, xyy)
ONE(RGBT, rgb_true, rgb_truecolor, LUV_, cieluv)
ONE(RGBT, rgb_true, rgb_truecolor, LAB_, lab)
ONE(RGBT, rgb_true, rgb_truecolor, LCHAB, lch_ab)
ONE(RGBT, rgb_true, rgb_truecolor, LCHUV, lch_uv)
ONE(RGBD, rgb_deep, rgb_deepcolor, RGBT, rgb_true)
ONE(RGBD, rgb_deep, rgb_deepcolor, GREYT, grey_true)
ONE(RGBD, rgb_deep, rgb_deepcolor, GREYD, grey_deep)
ONE(RGBD, rgb_deep, rgb_deepcolor, CMYK_, cmyk)
ONE(RGBD, rgb_deep, rgb_deepcolor, HSI_, hsi)
ONE(RGBD, rgb_deep, rgb_deepcolor, HSV_, hsv)
ONE(RGBD, rgb_deep, rgb_deepcolor, HSL_, hsl)
ONE(RGBD, rgb_deep, rgb_deepcolor, HCY_, hcy)
ONE(RGBD, rgb_deep, rgb_deepcolor, XYZ_, xyz)
ONE(RGBD, rgb_deep, rgb_deepcolor, XYY_, xyy)
ONE(RGBD, rgb_deep, rgb_deepcolor, LUV_, cieluv)
ONE(RGBD, rgb_deep, rgb_deepcolor, LAB_, lab)
ONE(RGBD, rgb_deep, rgb_deepcolor, LCHAB, lch_ab)
ONE(RGBD, rgb_deep, rgb_deepcolor, LCHUV, lch_uv)
ONE(GREYT, grey_true, grey_truecolor, RGBT, rgb_true)
ONE(GREYT, grey_true, grey_truecolor, RGBD, rgb_deep)
ONE(GREYT, grey_true, grey_truecolor, GREYD, grey_deep)
ONE(GREYT, grey_true, grey_truecolor, CMYK_, cmyk)
ONE(GREYT, grey_true, grey_truecolor, HSI_, hsi)
ONE(GREYT, grey_true, grey_truecolor, HSV_, hsv)
ONE(GREYT, grey_true, grey_truecolor, HSL_, hsl)
ONE(GREYT, grey_true, grey_truecolor, HCY_, hcy)
ONE(GREYT, grey_true, grey_truecolor, XYZ_, xyz)
ONE(GREYT, grey_true, grey_truecolor, XYY_, xyy)
ONE(GREYT, grey_true, grey_truecolor, LUV_, cieluv)
ONE(GREYT, grey_true, grey_truecolor, LAB_, lab)
ONE(GREYT, grey_true, grey_truecolor, LCHAB, lch_ab)
ONE(GREYT, grey_true, grey_truecolor, LCHUV, lch_uv)
ONE(GREYD, grey_deep, grey_deepcolor, RGBT, rgb_true)
ONE(GREYD, grey_deep, grey_deepcolor, RGBD, rgb_deep)
ONE(GREYD, grey_deep, grey_deepcolor, GREYT, grey_true)
ONE(GREYD, grey_deep, grey_deepcolor, CMYK_, cmyk)
ONE(GREYD, grey_deep, grey_deepcolor, HSI_, hsi)
ONE(GREYD, grey_deep, grey_deepcolor, HSV_, hsv)
ONE(GREYD, grey_deep, grey_deepcolor, HSL_, hsl)
ONE(GREYD, grey_deep, grey_deepcolor, HCY_, hcy)
ONE(GREYD, grey_deep, grey_deepcolor, XYZ_, xyz)
ONE(GREYD, grey_deep, grey_deepcolor, XYY_, xyy)
ONE(GREYD, grey_deep, grey_deepcolor, LUV_, cieluv)
ONE(GREYD, grey_deep, grey_deepcolor, LAB_, lab)
ONE(GREYD, grey_deep, grey_deepcolor, LCHAB, lch_ab)
ONE(GREYD, grey_deep, grey_deepcolor, LCHUV, lch_uv)
ONE(CMYK_, cmyk, cmyk, RGBT, rgb_true)
ONE(CMYK_, cmyk, cmyk, RGBD, rgb_deep)
ONE(CMYK_, cmyk, cmyk, GREYT, grey_true)
ONE(CMYK_, cmyk, cmyk, GREYD, grey_deep)
ONE(CMYK_, cmyk, cmyk, HSI_, hsi)
ONE(CMYK_, cmyk, cmyk, HSV_, hsv)
ONE(CMYK_, cmyk, cmyk, HSL_, hsl)
ONE(CMYK_, cmyk, cmyk, HCY_, hcy)
ONE(CMYK_, cmyk, cmyk, XYZ_, xyz)
ONE(CMYK_, cmyk, cmyk, XYY_, xyy)
ONE(CMYK_, cmyk, cmyk, LUV_, cieluv)
ONE(CMYK_, cmyk, cmyk, LAB_, lab)
ONE(CMYK_, cmyk, cmyk, LCHAB, lch_ab)
ONE(CMYK_, cmyk, cmyk, LCHUV, lch_uv)
ONE(HSI_, hsi, hsi, RGBT, rgb_true)
ONE(HSI_, hsi, hsi, RGBD, rgb_deep)
ONE(HSI_, hsi, hsi, GREYT, grey_true)
ONE(HSI_, hsi, hsi, GREYD, grey_deep)
ONE(HSI_, hsi, hsi, CMYK_, cmyk)
ONE(HSI_, hsi, hsi, HSV_, hsv)
ONE(HSI_, hsi, hsi, HSL_, hsl)
ONE(HSI_, hsi, hsi, HCY_, hcy)
ONE(HSI_, hsi, hsi, XYZ_, xyz)
ONE(HSI_, hsi, hsi, XYY_, xyy)
ONE(HSI_, hsi, hsi, LUV_, cieluv)
ONE(HSI_, hsi, hsi, LAB_, lab)
ONE(HSI_, hsi, hsi, LCHAB, lch_ab)
ONE(HSI_, hsi, hsi, LCHUV, lch_uv)
ONE(HSV_, hsv, hsv, RGBT, rgb_true)
ONE(HSV_, hsv, hsv, RGBD, rgb_deep)
ONE(HSV_, hsv, hsv, GREYT, grey_true)
ONE(HSV_, hsv, hsv, GREYD, grey_deep)
ONE(HSV_, hsv, hsv, CMYK_, cmyk)
ONE(HSV_, hsv, hsv, HSI_, hsi)
ONE(HSV_, hsv, hsv, HSL_, hsl)
ONE(HSV_, hsv, hsv, HCY_, hcy)
ONE(HSV_, hsv, hsv, XYZ_, xyz)
ONE(HSV_, hsv, hsv, XYY_, xyy)
ONE(HSV_, hsv, hsv, LUV_, cieluv)
ONE(HSV_, hsv, hsv, LAB_, lab)
ONE(HSV_, hsv, hsv, LCHAB, lch_ab)
ONE(HSV_, hsv, hsv, LCHUV, lch_uv)
ONE(HSL_, hsl, hsl, RGBT, rgb_true)
ONE(HSL_, hsl, hsl, RGBD, rgb_deep)
ONE(HSL_, hsl, hsl, GREYT, grey_true)
ONE(HSL_, hsl, hsl, GREYD, grey_deep)
ONE(HSL_, hsl, hsl, CMYK_, cmyk)
ONE(HSL_, hsl, hsl, HSI_, hsi)
ONE(HSL_, hsl, hsl, HSV_, hsv)
ONE(HSL_, hsl, hsl, HCY_, hcy)
ONE(HSL_, hsl, hsl, XYZ_, xyz)
ONE(HSL_, hsl, hsl, XYY_, xyy)
ONE(HSL_, hsl, hsl, LUV_, cieluv)
ONE(HSL_, hsl, hsl, LAB_, lab)
ONE(HSL_, hsl, hsl, LCHAB, lch_ab)
ONE(HSL_, hsl, hsl, LCHUV, lch_uv)
ONE(HCY_, hcy, hcy, RGBT, rgb_true)
ONE(HCY_, hcy, hcy, RGBD, rgb_deep)
ONE(HCY_, hcy, hcy, GREYT, grey_true)
ONE(HCY_, hcy, hcy, GREYD, grey_deep)
ONE(HCY_, hcy, hcy, CMYK_, cmyk)
ONE(HCY_, hcy, hcy, HSI_, hsi)
ONE(HCY_, hcy, hcy, HSV_, hsv)
ONE(HCY_, hcy, hcy, HSL_, hsl)
ONE(HCY_, hcy, hcy, XYZ_, xyz)
ONE(HCY_, hcy, hcy, XYY_, xyy)
ONE(HCY_, hcy, hcy, LUV_, cieluv)
ONE(HCY_, hcy, hcy, LAB_, lab)
ONE(HCY_, hcy, hcy, LCHAB, lch_ab)
ONE(HCY_, hcy, hcy, LCHUV, lch_uv)
ONE(XYZ_, xyz, xyz, RGBT, rgb_true)
ONE(XYZ_, xyz, xyz, RGBD, rgb_deep)
ONE(XYZ_, xyz, xyz, GREYT, grey_true)
ONE(XYZ_, xyz, xyz, GREYD, grey_deep)
ONE(XYZ_, xyz, xyz, CMYK_, cmyk)
ONE(XYZ_, xyz, xyz, HSI_, hsi)
ONE(XYZ_, xyz, xyz, HSV_, hsv)
ONE(XYZ_, xyz, xyz, HSL_, hsl)
ONE(XYZ_, xyz, xyz, HCY_, hcy)
ONE(XYZ_, xyz, xyz, XYY_, xyy)
ONE(XYZ_, xyz, xyz, LUV_, cieluv)
ONE(XYZ_, xyz, xyz, LAB_, lab)
ONE(XYZ_, xyz, xyz, LCHAB, lch_ab)
ONE(XYZ_, xyz, xyz, LCHUV, lch_uv)
ONE(XYY_, xyy, xyy, RGBT, rgb_true)
ONE(XYY_, xyy, xyy, RGBD, rgb_deep)
ONE(XYY_, xyy, xyy, GREYT, grey_true)
ONE(XYY_, xyy, xyy, GREYD, grey_deep)
ONE(XYY_, xyy, xyy, CMYK_, cmyk)
ONE(XYY_, xyy, xyy, HSI_, hsi)
ONE(XYY_, xyy, xyy, HSV_, hsv)
ONE(XYY_, xyy, xyy, HSL_, hsl)
ONE(XYY_, xyy, xyy, HCY_, hcy)
ONE(XYY_, xyy, xyy, XYZ_, xyz)
ONE(XYY_, xyy, xyy, LUV_, cieluv)
ONE(XYY_, xyy, xyy, LAB_, lab)
ONE(XYY_, xyy, xyy, LCHAB, lch_ab)
ONE(XYY_, xyy, xyy, LCHUV, lch_uv)
ONE(LUV_, cieluv, cieluv, RGBT, rgb_true)
ONE(LUV_, cieluv, cieluv, RGBD, rgb_deep)
ONE(LUV_, cieluv, cieluv, GREYT, grey_true)
ONE(LUV_, cieluv, cieluv, GREYD, grey_deep)
ONE(LUV_, cieluv, cieluv, CMYK_, cmyk)
ONE(LUV_, cieluv, cieluv, HSI_, hsi)
ONE(LUV_, cieluv, cieluv, HSV_, hsv)
ONE(LUV_, cieluv, cieluv, HSL_, hsl)
ONE(LUV_, cieluv, cieluv, HCY_, hcy)
ONE(LUV_, cieluv, cieluv, XYZ_, xyz)
ONE(LUV_, cieluv, cieluv, XYY_, xyy)
ONE(LUV_, cieluv, cieluv, LAB_, lab)
ONE(LUV_, cieluv, cieluv, LCHAB, lch_ab)
ONE(LUV_, cieluv, cieluv, LCHUV, lch_uv)
ONE(LAB_, lab, lab, RGBT, rgb_true)
ONE(LAB_, lab, lab, RGBD, rgb_deep)
ONE(LAB_, lab, lab, GREYT, grey_true)
ONE(LAB_, lab, lab, GREYD, grey_deep)
ONE(LAB_, lab, lab, CMYK_, cmyk)
ONE(LAB_, lab, lab, HSI_, hsi)
ONE(LAB_, lab, lab, HSV_, hsv)
ONE(LAB_, lab, lab, HSL_, hsl)
ONE(LAB_, lab, lab, HCY_, hcy)
ONE(LAB_, lab, lab, XYZ_, xyz)
ONE(LAB_, lab, lab, XYY_, xyy)
ONE(LAB_, lab, lab, LUV_, cieluv)
ONE(LAB_, lab, lab, LCHAB, lch_ab)
ONE(LAB_, lab, lab, LCHUV, lch_uv)
ONE(LCHAB, lch_ab, lch_ab, RGBT, rgb_true)
ONE(LCHAB, lch_ab, lch_ab, RGBD, rgb_deep)
ONE(LCHAB, lch_ab, lch_ab, GREYT, grey_true)
ONE(LCHAB, lch_ab, lch_ab, GREYD, grey_deep)
ONE(LCHAB, lch_ab, lch_ab, CMYK_, cmyk)
ONE(LCHAB, lch_ab, lch_ab, HSI_, hsi)
ONE(LCHAB, lch_ab, lch_ab, HSV_, hsv)
ONE(LCHAB, lch_ab, lch_ab, HSL_, hsl)
ONE(LCHAB, lch_ab, lch_ab, HCY_, hcy)
ONE(LCHAB, lch_ab, lch_ab, XYZ_, xyz)
ONE(LCHAB, lch_ab, lch_ab, XYY_, xyy)
ONE(LCHAB, lch_ab, lch_ab, LUV_, cieluv)
ONE(LCHAB, lch_ab, lch_ab, LAB_, lab)
ONE(LCHAB, lch_ab, lch_ab, LCHUV, lch_uv)
ONE(LCHUV, lch_uv, lch_uv, RGBT, rgb_true)
ONE(LCHUV, lch_uv, lch_uv, RGBD, rgb_deep)
ONE(LCHUV, lch_uv, lch_uv, GREYT, grey_true)
ONE(LCHUV, lch_uv, lch_uv, GREYD, grey_deep)
ONE(LCHUV, lch_uv, lch_uv, CMYK_, cmyk)
ONE(LCHUV, lch_uv, lch_uv, HSI_, hsi)
ONE(LCHUV, lch_uv, lch_uv, HSV_, hsv)
ONE(LCHUV, lch_uv, lch_uv, HSL_, hsl)
ONE(LCHUV, lch_uv, lch_uv, HCY_, hcy)
ONE(LCHUV, lch_uv, lch_uv, XYZ_, xyz)
ONE(LCHUV, lch_uv, lch_uv, XYY_, xyy)
ONE(LCHUV, lch_uv, lch_uv, LUV_, cieluv)
ONE(LCHUV, lch_uv, lch_uv, LAB_, lab)
ONE(LCHUV, lch_uv, lch_uv, LCHAB, lch_ab)
