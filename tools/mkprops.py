#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties) from the table below."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe, "hook_needed": hook,
        },
    })


NOTEST = "The repository's only tests of this area are commented out (they print timings for pictures to look at), so "

p("C01", "Images are row-major pixel stores whatever the history of reads and writes",
  "An image built from a slice, a vector, a vector of vectors, a vector of slices, or blank (all zeroes) holds its samples row by row from the upper left corner, and every way of addressing a pixel (2D, 1D, unchecked, mutable, the raw data) sees the same samples. A write through any of them changes exactly the addressed pixel, and reported width, height, channels, alpha, non-alpha channel count and sizes always match the construction. Reading or writing at 2D coordinates outside the image, at a 1D index past the end, or with a pixel of the wrong length panics and leaves the image unchanged.",
  ["inputs", "histories"], "all image shapes (fewer than 2^32 samples), channel counts and sample types; all sequences of constructor, read and write calls",
  "Tests touch one 3x3 image with four reads and two writes; the addressing arithmetic must hold for every shape, coordinate and order of operations.",
  ["src/image/mod.rs", "src/error/messages.rs"],
  [("index arithmetic", "src/image/mod.rs Image::index, Index/IndexMut, get_pixel*, set_pixel*"), ("bounds and channel checks", "src/error/messages.rs check_xy, check_channels")],
  ["Image::{from_*,blank,empty,index,data,data_mut,get_pixel*,set_pixel*}", "ImageInfo accessors and Display"],
  [("data", "flat sample vector", "src/image/mod.rs Image.data"), ("info", "dimensions and channel layout", "src/image/mod.rs Image.info")])

p("C02", "Mapping, applying and editing touch each pixel and channel exactly once",
  "Mapping a function over pixels or channels produces the image whose every pixel (or channel) is the function of the corresponding input, with unchanged width, height and alpha flag and the channel count of what the function produced; the in-place forms leave exactly what mapping would return. In the alpha-aware forms the colour function sees only the non-alpha channels and the alpha function only the last channel when the image has alpha, and the colour function sees everything when it has not. Editing one channel changes that channel of every pixel and nothing else; the per-pixel helpers (alpha value, channels without alpha, map, apply, blackness tests) follow the same split.",
  ["inputs"], "all images with and without alpha, all channel counts, all functions",
  "Tests use one 2x2 four-channel image and one arithmetic function.",
  ["src/image/mod.rs", "src/image/pixel.rs"],
  [("map_*/apply_*/edit_channel loops", "src/image/mod.rs"), ("alpha split", "src/image/pixel.rs Pixel for [T]")],
  ["Image::map_*", "Image::apply_*", "Image::edit_channel", "Pixel trait"])

p("C03", "Pixel iteration visits every pixel once, in order, with a truthful size hint",
  "Iterating over an image yields each pixel exactly once in row-major order together with its own x and y coordinates, yields nothing for an image with no pixels, and stays exhausted afterwards. At every moment of the iteration the size hint brackets the number of items that are still to come.",
  ["inputs", "histories"], "all image shapes including one-row, one-column and empty ones; all prefixes of an iteration",
  "Only a doc example iterates (2x2) and it checks nothing.",
  ["src/image/pixel_iter.rs"], [("coordinate stepping", "src/image/pixel_iter.rs PixelIter::next"), ("size_hint", "src/image/pixel_iter.rs")],
  ["IntoIterator for &Image", "PixelIter::{new,next,size_hint}"],
  [("x,y", "next coordinates", "src/image/pixel_iter.rs PixelIter")])

p("C04", "Sub-images and neighbourhoods show the right window of the image",
  "A sub-image of a rectangle inside the image reads, at every (x, y), the image's pixel at the rectangle's corner plus (x, y), and flattening it gives those pixels row by row. A 1D (horizontal or vertical) or 2D neighbourhood of any size centred on a pixel reads the image's pixels at the corresponding offsets, with coordinates beyond an edge replaced by the nearest edge pixel (clamp padding). Asking for a sub-image or neighbourhood at coordinates outside the image panics.",
  ["inputs"], "all image shapes, rectangles, centres and window sizes (smaller and larger than the image, odd and even)",
  "Tests look at one 1x2 rectangle and four windows of size 3, for which wrong padding and wrong ordering rules coincide with the right ones.",
  ["src/image/mod.rs", "src/image/sub_image.rs"], [("get_subimage, get_neighborhood_1d/2d", "src/image/mod.rs"), ("row-major lookup", "src/image/sub_image.rs")],
  ["Image::get_subimage", "Image::get_neighborhood_1d", "Image::get_neighborhood_2d", "SubImage::{get_pixel,index,to_vec,info,data}"])

p("C05", "Channel type conversions are exact where possible and saturate elsewhere",
  "Converting an image from an integer or f32 channel type to a wider float type preserves every sample value and the layout, and converting float samples to u8 rounds to the nearest integer and saturates to 0..=255; converting u8 to float and back is the identity. Rescaling samples from one range to another is the affine map sending the old bounds to the new ones, and scaling u8 to a 0..scale float image and back returns the original image for every positive scale.",
  ["inputs"], "all images, all sample values (including negative, huge, infinite and NaN floats), all scales and ranges",
  NOTEST + "no conversion is ever asserted.",
  ["src/image/from_impl.rs", "src/convert.rs"], [("From impls", "src/image/from_impl.rs"), ("scale_channels, f32_to_u8_scale, u8_to_f32_scale", "src/convert.rs")],
  ["From/Into between Image types", "convert::*"])

p("C06", "Brightness adds the bias to every colour channel with saturation",
  "For every image and every bias in -255..=255, brightness adjustment returns an image of the same shape in which every colour sample, including those in the last rows and columns, is the input sample plus the bias clamped to 0..=255, and alpha samples are unchanged. A bias outside that range is rejected with an error. The result is the same with and without SIMD.",
  ["inputs", "configurations"], "all image sizes and channel layouts (gray, gray+alpha, RGB, RGBA), all i16 biases, SIMD on and off",
  NOTEST + "neither the saturation, the alpha mask nor the samples left over after whole 32-byte chunks are ever checked.",
  ["src/tone.rs", "src/simd.rs", "src/error/messages.rs"], [("vector path and scalar tail", "src/simd.rs adds_256_u8"), ("lookup table path", "src/tone.rs brightness_rgb_norm")],
  ["tone::brightness"])

p("C07", "Saturation adjusts only the S of every pixel in HSV",
  "For every RGB(A) image and every amount in -255..=255, saturation adjustment equals converting to 8-bit HSV, adding the amount to S of every pixel with clamping to 0..=255, and converting back; alpha is unchanged and amounts outside the range are rejected with an error. The underlying vector routine adds to the selected channel of every pixel (to all channels when the channel number is invalid) and leaves the other channels alone. The result is the same with and without SIMD.",
  ["inputs", "configurations"], "all RGB and RGBA image sizes, all i16 amounts, all channel selectors, SIMD on and off",
  NOTEST + "the per-channel masks and the remainder after 30- or 32-byte chunks are never checked.",
  ["src/tone.rs", "src/simd.rs", "src/colorspace.rs"], [("masked vector add", "src/simd.rs adds_n_256_u8"), ("scalar path", "src/tone.rs saturation_norm")],
  ["tone::saturation", "simd::adds_n_256_u8"])

p("C08", "Grayscale is the plain average of the colour channels of every pixel",
  "Converting an RGB(A) image to grayscale yields one colour channel per pixel equal to the mean of that pixel's colour channels (rounded down for u8, exact up to float rounding for f32), for every pixel of every image size, followed by the unchanged alpha when there is one. A pixel with equal colour channels keeps its value, and the result is the same with and without SIMD.",
  ["inputs", "configurations"], "all RGB(A) images of all sizes, SIMD on and off",
  NOTEST + "neither values nor the pixels after the last whole 32-pixel chunk are checked.",
  ["src/colorspace.rs", "src/simd.rs"], [("vector averages", "src/simd.rs avg_256_u8, avg_alpha_256_u8"), ("scalar averages", "src/colorspace.rs rgb_to_grayscale_norm, rgb_to_grayscale_f32")],
  ["colorspace::rgb_to_grayscale", "colorspace::rgb_to_grayscale_f32"])

p("C09", "Contrast and gamma apply their curve to every colour sample and keep alpha",
  "Contrast with a gain in [0, 1] maps every colour sample c to round(c * gain), and gamma correction with maximum m > 0 and exponent g >= 0 maps it to round((c / m)^g * m) saturated to 255; alpha samples, shape and layout never change. Gains outside [0, 1] and negative exponents are rejected with an error. Gain 1 and exponent 1 are the identity.",
  ["inputs"], "all images and all gains, exponents and maxima",
  NOTEST + "no value is ever asserted.",
  ["src/tone.rs", "src/error/messages.rs"], [("contrast lookup table", "src/tone.rs contrast"), ("gamma", "src/tone.rs gamma")], ["tone::contrast", "tone::gamma"])

p("C10", "RGB and HSV conversions agree with the hexcone model and invert each other",
  "8-bit HSV has V equal to the largest RGB channel, S = floor(255*(max-min)/max) and the hue on a 0..255 circle with sectors 43 wide based at 0, 85 and 170; float HSV is the usual hexcone model in [0, 1]. Converting any 8-bit RGB colour to float HSV and back returns exactly that colour, through 8-bit HSV it returns one within the quantization error of that format (at most 18 levels) with gray colours exact, and every HSV triple in the documented range (hue 1.0 meaning the same as hue 0.0) converts to the RGB colour of the hexcone model. Alpha survives each conversion.",
  ["inputs"], "all 2^24 RGB colours, all 2^24 8-bit HSV triples, all float HSV triples in [0,1], with and without alpha",
  NOTEST + "no conversion result is asserted; 2^24 colours cannot be listed by hand.",
  ["src/colorspace.rs"], [("rgb_to_hsv, hsv_to_rgb, rgb_to_hsv_f32, hsv_to_rgb_f32", "src/colorspace.rs")], ["colorspace::rgb_to_hsv*", "colorspace::hsv_to_rgb*"])

p("C11", "sRGB linearisation is the sRGB curve, and unlinearising is its monotone inverse",
  "Linearising maps each of the 256 sample values to the sRGB transfer curve's value in [0, 1], strictly increasing from 0 to 1. Unlinearising rounds the inverse curve to the nearest 8-bit value, never decreases as its argument grows, saturates outside [0, 1], and returns every 8-bit sample exactly after linearisation. Alpha passes through both unchanged.",
  ["inputs"], "all 256 sample values, all float arguments, all images with and without alpha",
  NOTEST + "no value of the curve is asserted.",
  ["src/colorspace.rs", "src/util/constants.rs"], [("linearize_srgb_f32, unlinearize_srgb_f32", "src/colorspace.rs"), ("GAMMA", "src/util/constants.rs")], ["colorspace::linearize_srgb_f32", "colorspace::unlinearize_srgb_f32"])

p("C12", "XYZ and CIELAB conversions match the CIE formulas and round-trip exactly",
  "Conversion between linear sRGB, CIE XYZ and CIELAB (with reference white D50 or D65) agrees with the standard sRGB matrices and the CIE L*a*b* formulas to float accuracy, with L* in [0, 100] and a*, b* in [-128, 127] for every sRGB colour. Each conversion is undone by its inverse, so every 8-bit sRGB colour survives the trip through XYZ or through CIELAB and back unchanged. Alpha passes through every conversion unchanged.",
  ["inputs"], "all sRGB colours, XYZ and Lab values in the documented ranges, both reference whites, with and without alpha",
  NOTEST + "no converted value is asserted.",
  ["src/colorspace.rs", "src/util/math.rs", "src/util/mod.rs", "src/util/constants.rs"], [("matrices", "src/util/constants.rs"), ("lab functions", "src/util/math.rs xyz_to_lab_fn, lab_to_xyz_fn"), ("tristimulus values", "src/util/mod.rs")],
  ["colorspace::{srgb_lin_to_xyz,xyz_to_srgb_lin,xyz_to_lab,lab_to_xyz,srgb_to_xyz,xyz_to_srgb,srgb_to_lab,lab_to_srgb}_f32"])

p("C13", "Lab-based brightness and contrast change lightness only",
  "Brightness in CIELAB adds bias/255*100 to L* of every pixel and contrast in CIELAB multiplies L* by the gain, leaving a*, b* and alpha alone, and the result is that Lab colour converted back to sRGB to within one 8-bit level. A zero bias and a gain of 1 are the identity, and out-of-range biases and gains are rejected with an error. For gray pixels the result is monotone in the bias and in the gain.",
  ["inputs"], "all RGB(A) images, all biases and gains",
  NOTEST + "no result is asserted.",
  ["src/tone.rs", "src/colorspace.rs"], [("brightness_lab, contrast_lab", "src/tone.rs")], ["tone::brightness_lab", "tone::contrast_lab"])

p("C14", "Histogram equalisation blends each lightness with its true percentile",
  "The percentile computed for each lightness bin is the fraction of the image's pixels whose bin is not higher, so it never decreases, lies in (0, 1] and is 1 for the highest bin. Equalisation with amount a in [0, 1] replaces every pixel's lightness L by a*100*percentile(L) + (1-a)*L and leaves a*, b* and alpha alone, to within one 8-bit level; a = 0 returns the image unchanged. Amounts outside [0, 1] and a negative precision are rejected with an error.",
  ["inputs"], "all RGB(A) images, all amounts, precisions and reference whites",
  NOTEST + "no percentile or equalised value is asserted.",
  ["src/tone.rs", "src/util/mod.rs"], [("generate_histogram_percentiles", "src/util/mod.rs"), ("histogram_equalization", "src/tone.rs")], ["tone::histogram_equalization", "util::generate_histogram_percentiles"])

p("C15", "Crop, translate and reflect move whole pixels exactly and lose none they keep",
  "Cropping to any rectangle that lies within the image, including one that touches its right or bottom edge or is the whole image, returns exactly the pixels of that rectangle, and a rectangle that does not fit is rejected with an error. Translating moves every pixel that stays inside by (x, y) and fills the rest with zeroes; reflecting across the vertical or horizontal axis mirrors every row or column, and doing it twice gives the image back. All of them keep channel count and alpha flag and copy pixels bit for bit.",
  ["inputs", "configurations"], "all images of all channel types and shapes, all rectangles, offsets and axes; with and without multithreading",
  NOTEST + "no output pixel is asserted.",
  ["src/transform.rs"], [("crop (two variants)", "src/transform.rs"), ("translate, reflect", "src/transform.rs")], ["transform::{crop,translate,reflect}"])

p("C16", "Overlay and superimpose combine exactly the overlapping region",
  "Overlaying a front image on a back image at (x, y) gives the back image with the overlapping part replaced by the front's pixels; superimposing with weight a in [0, 1] gives a*back + (1-a)*front on the overlap and the back image elsewhere. The front may stick out of the back or miss it entirely, the result always has the back's shape, and a = 1 and a = 0 give the back image and the overlay. Different channel counts, and weights outside [0, 1], are rejected with an error.",
  ["inputs"], "all pairs of images, all offsets, all weights",
  NOTEST + "no blended pixel is asserted.",
  ["src/transform.rs", "src/error/messages.rs"], [("superimpose, overlay", "src/transform.rs")], ["transform::{overlay,superimpose}"])

p("C17", "Nearest-neighbour scaling yields the right size and only input pixels",
  "Scaling by factors fx, fy > 0 yields an image of round(width*fx) by round(height*fy) pixels with the same channels and alpha, for every method. With the nearest-neighbour method every output pixel is a copy of the input pixel whose cell covers the sample position (x+1)/fx, (y+1)/fy, limited to the last row or column, so a factor of 1 is the identity and an integer factor repeats each pixel exactly. No valid factor makes it panic, and negative factors are rejected with an error.",
  ["inputs", "configurations"], "all images, all positive factors up and down, with and without multithreading",
  NOTEST + "neither size nor values are asserted.",
  ["src/transform.rs"], [("scale, interpolate_nearest_neighbor", "src/transform.rs")], ["transform::scale"])

p("C18", "Bilinear, bicubic and Lanczos scaling interpolate with the right weights",
  "With source position x/fx, y/fy, bilinear output is the distance-weighted mean of the four surrounding pixels (edge pixels repeated), bicubic output the cubic B-spline weighting of the surrounding 4x4 pixels, and Lanczos output of size s the product-of-Lanczos-kernels sum over the surrounding 2s x 2s pixels, each to float accuracy. Consequently bilinear and bicubic keep constant images constant and never leave the range of the input samples, and bilinear and Lanczos with factor 1 are the identity. The general scaling call's Lanczos method equals the explicit Lanczos call with size 3.",
  ["inputs", "configurations"], "all images, all positive factors, all kernel sizes, with and without multithreading",
  NOTEST + "no interpolated value is asserted.",
  ["src/transform.rs", "src/util/math.rs"], [("interpolate_bilinear, interpolate_bicubic, interpolate_lanczos", "src/transform.rs"), ("cubic_weighting_fn, lanczos_kernel", "src/util/math.rs")], ["transform::scale", "transform::scale_lanczos"])

p("C19", "Rotation turns the image counterclockwise about its centre without panicking",
  "Rotating by any finite angle yields an image whose size is the rotated bounding box (rounded to whole pixels), in which every pixel is either black (zero) or a copy of the input pixel found by rotating its position back about the image centre. Rotating by multiples of 90 degrees is the exact lossless pixel permutation: 0 is the identity, 90 sends the top right corner to the top left, and four quarter turns restore the image.",
  ["inputs"], "all images of all shapes, all finite angles",
  NOTEST + "no rotated pixel is asserted.",
  ["src/transform.rs"], [("rotate", "src/transform.rs")], ["transform::rotate"])

p("C20", "Shearing displaces rows and columns by the right amount and keeps every pixel",
  "A shear grows the image by floor(|height*sx|) columns and floor(|width*sy|) rows and places each input pixel (x, y) at (x - sx*y, y - sy*x), shifted for positive factors by the largest displacement so that nothing falls outside, rounded down; all other output pixels are black. With a shear along one axis only, every row (or column) reappears whole and in order, so no input pixel is lost. Zero shear is the identity.",
  ["inputs"], "all images, all finite shear factors of either sign on either axis",
  NOTEST + "no sheared pixel is asserted.",
  ["src/transform.rs"], [("shear", "src/transform.rs")], ["transform::shear"])

p("C21", "Linear filters compute the kernel-weighted sum with clamp padding at every pixel",
  "Filtering with a 1D kernel (vertical or horizontal), a separable pair or a 2D kernel gives at every pixel and channel the sum of kernel entries times the neighbouring samples, with edge pixels repeated beyond the border, to float accuracy and with unchanged shape; the general filter gives the same result whether or not it finds the kernel separable. The operation is linear in the image and commutes with reflection when the kernel is reflected too. Kernels of even length, of non-square 2D length, or separable pairs of different lengths are rejected with an error.",
  ["inputs", "configurations"], "all images, channel counts and kernels (sizes below and above the image's), with and without multithreading",
  "Tests apply one kernel to one hand-made window; no filter over an image, no border and no large kernel is tested.",
  ["src/filter/mod.rs", "src/util/math.rs", "src/image/mod.rs"], [("filter_1d, unseparable_filter, separable_filter, linear_filter", "src/filter/mod.rs"), ("apply_1d_kernel, apply_2d_kernel", "src/util/math.rs"), ("clamp padding", "src/image/mod.rs get_neighborhood_*")],
  ["filter::{filter_1d,separable_filter,unseparable_filter,linear_filter}", "util::apply_*_kernel"])

p("C22", "Smoothing filters average exactly the window they name",
  "The box filter of size n gives the plain mean of the n x n window around each pixel, the weighted average filter the mean in which the centre counts w times, and the Gaussian blur the sum weighted by the two-dimensional Gaussian density of the given sigma over the n x n window, all with edge pixels repeated. Box and weighted averages keep constant images constant and stay within the range of the input samples. Even sizes are rejected with an error.",
  ["inputs", "configurations"], "all images, all odd sizes, weights and sigmas, with and without multithreading",
  NOTEST + "no filtered value is asserted.",
  ["src/filter/mod.rs", "src/util/mod.rs"], [("box_filter, weighted_avg_filter, gaussian_blur", "src/filter/mod.rs"), ("generate_gaussian_kernel", "src/util/mod.rs")], ["filter::{box_filter,weighted_avg_filter,gaussian_blur}"])

p("C23", "Sharpening and edge operators apply their textbook masks",
  "Sharpening, unsharp masking and the Laplacian equal filtering with their published kernels; Prewitt, Sobel and weighted Sobel give at every pixel the Euclidean magnitude of the two directional derivatives; the Laplacian of Gaussian uses -1/(pi*s^4) * (1 - r^2/(2s^2)) * exp(-r^2/(2s^2)). On constant images sharpening and unsharp masking are the identity and the derivative operators give zero, and gradient magnitudes do not change when the image is reflected or transposed. The gradient operators accept exactly the grayscale images (with or without alpha, which they keep), and normalising a Laplacian sends its smallest value to 0 and its largest to 255.",
  ["inputs", "configurations"], "all images, sigmas, sizes and weights, with and without multithreading",
  NOTEST + "no response is asserted.",
  ["src/filter/edge.rs", "src/filter/mod.rs", "src/util/mod.rs", "src/util/constants.rs"], [("derivative_mask, prewitt, sobel, sobel_weighted, laplacian, laplacian_of_gaussian, normalize_laplacian", "src/filter/edge.rs"), ("generate_log_kernel", "src/util/mod.rs"), ("kernels", "src/util/constants.rs")],
  ["filter::{sharpen,unsharp_masking,prewitt,sobel,sobel_weighted,derivative_mask,laplacian,laplacian_of_gaussian,normalize_laplacian}"])

p("C24", "Thresholding follows its five documented rules; residual is the difference",
  "For every grayscale image, threshold and maximum, each of the five thresholding methods maps every sample exactly as documented (strictly greater than the threshold versus not), leaves alpha unchanged and rejects images that are not grayscale with an error. The residual of two images of equal shape is their exact sample-by-sample difference, and images whose size, channels or alpha differ are rejected with an error.",
  ["inputs"], "all grayscale images with and without alpha, all thresholds (equal to samples included), maxima and methods",
  NOTEST + "no output value is asserted.",
  ["src/filter/mod.rs", "src/enums.rs", "src/error/messages.rs"], [("threshold, residual", "src/filter/mod.rs"), ("check_grayscale", "src/error/messages.rs")], ["filter::threshold", "filter::residual"])

p("C25", "The median filter returns the true median of every window",
  "For every image, channel and radius, each output sample of the median filter is the median of the (2r+1) x (2r+1) input samples around it, with edge pixels repeated beyond the border, in every row and column including the last ones. Radius 0 is the identity.",
  ["inputs", "histories"], "all images (sizes below, at and above the block of columns processed at once), all radii; the histograms carry state from row to row",
  NOTEST + "the incremental histogram state, the pivots and the last block of columns are never checked.",
  ["src/filter/median.rs"], [("partial histograms", "src/filter/median.rs PartialHistograms"), ("pivot search", "src/filter/median.rs process_row_med")], ["filter::median_filter"],
  [("histograms, pivots, sums", "sliding window state per column", "src/filter/median.rs MedianHist")])

p("C26", "The alpha-trimmed mean averages exactly the untrimmed samples of a window",
  "For every image, channel, radius and even alpha smaller than the window's sample count, each output sample is the rounded mean of the (2r+1) x (2r+1) samples around it (edge pixels repeated) after removing the alpha/2 smallest and the alpha/2 largest. Alpha 0 gives the plain mean; odd alphas and alphas not smaller than the window are rejected with an error.",
  ["inputs", "histories"], "all images, radii and alphas; the histograms carry state from row to row",
  NOTEST + "the sliding histogram state and the trimming are never checked.",
  ["src/filter/median.rs"], [("alpha_trimmed_mean_filter and its histograms", "src/filter/median.rs MeanHist")], ["filter::alpha_trimmed_mean_filter"],
  [("histograms", "sliding window state per column", "src/filter/median.rs MeanHist")])

p("C27", "The bilateral filter is the normalised range- and space-weighted mean in CIELAB",
  "For every RGB(A) image and positive range and spatial parameters, each output pixel is, channel by channel in CIELAB (D65), the mean of the window of size floor(4*spatial+1) around it weighted by Gaussians of distance and of value difference, the centre pixel included, converted back to sRGB to within one 8-bit level. Constant images are unchanged, and no positive parameter value makes it panic. Negative parameters are rejected with an error.",
  ["inputs", "configurations"], "all RGB(A) images, range parameters of 0.05 and more, spatial parameters of 0.05 and more up to windows of 25 pixels (odd and even window sizes), with and without multithreading",
  NOTEST + "no filtered value is asserted.",
  ["src/filter/bilateral.rs", "src/util/mod.rs", "src/util/math.rs"], [("bilateral_direct_pixel", "src/filter/bilateral.rs"), ("generate_spatial_mat", "src/util/mod.rs")], ["filter::bilateral_filter"])

p("C28", "Binary morphology matches its set definitions at every pixel and size",
  "On a binary (0/255) grayscale image, erosion keeps a pixel white exactly when its whole (2r+1) x (2r+1) window lies in the image and is white, dilation makes it white exactly when some in-image pixel of the window is white, and majority gives it the value held by most in-image pixels of the window (either value in a tie), and alpha is kept. Opening is erosion then dilation, closing is dilation then erosion, and the gradient is the difference of dilation and erosion. This holds at the borders, for radii larger than the image, for images of any size, and images that are not grayscale are rejected with an error.",
  ["inputs"], "all binary images (a few pixels to beyond 256x256), with and without alpha, all radii",
  NOTEST + "no output pixel is asserted; float accumulation and border windows only show on specific shapes.",
  ["src/morphology.rs", "src/util/mod.rs"], [("window sums", "src/morphology.rs"), ("summed-area table", "src/util/mod.rs")], ["morphology::{erode,dilate,majority,open,close,gradient}"])

p("C29", "Summed-area tables answer every rectangle query exactly",
  "The summed-area table of an image holds at (x, y), per channel, the sum of all samples above and to the left inclusive, and a rectangle query over it returns the sum of the samples in the rectangle, corners included, for every rectangle in the image. For integer-valued samples whose total stays below 2^23 the answers are exact.",
  ["inputs"], "all images, channel counts and rectangles",
  "Tests check one 6x3 single-channel table and three rectangles.",
  ["src/util/mod.rs"], [("generate_summed_area_table, rectangular_intensity_sum", "src/util/mod.rs")], ["util::generate_summed_area_table", "util::rectangular_intensity_sum"])

p("C30", "Writing an image to a lossless file and reading it back returns the same image",
  "Every gray, gray+alpha, RGB or RGBA 8-bit image written to a PNG file (and, for the layouts they support, the other lossless formats) reads back with identical samples, size, channels and alpha flag, overwriting whatever the file held before. Layouts that are none of these, data too short for the declared size and unknown file extensions make writing return an error; missing files, unsupported ones (16 bits per channel) and truncated or corrupted PNG files make reading return an error or an image of consistent dimensions, and neither call panics.",
  ["inputs", "fault_sequences"], "all 8-bit images, formats, layouts; all truncations and byte corruptions of a PNG file",
  "No running test touches the file system.",
  ["src/io/mod.rs"], [("read, write, from_color_type", "src/io/mod.rs")], ["io::read", "io::write", "files on disk"])

p("C31", "SIMD and multithreading never change a result",
  "Every operation of the library, given the same input, returns the same result in every feature configuration (default with SIMD, without SIMD, with multithreading, with both) and for every number of worker threads: identical for integer operations, equal to float rounding otherwise, and an error in one is an error in all. Repeating a call gives the same result.",
  ["configurations", "inputs", "schedules"], "all operations, inputs, feature sets and thread counts",
  "CI builds one configuration; the multithreaded variants of crop, scale and the filters are never executed, and the crate's tests do not even compile with multithreading on.",
  ["src/transform.rs", "src/filter/mod.rs", "src/filter/bilateral.rs", "src/tone.rs", "src/colorspace.rs", "src/simd.rs"], [("cfg(feature) twins", "src/transform.rs, src/filter/mod.rs, src/filter/bilateral.rs, src/util/math.rs"), ("runtime AVX2 dispatch", "src/tone.rs, src/colorspace.rs")],
  ["all public operations"])

p("C32", "No operation reads or writes memory outside its images",
  "For every image size, channel layout and parameter, the SIMD operations (brightness, saturation, grayscale and the routines of the SIMD module) read only the samples of the input image and write only those of the output image they allocate. Safe calls of the library never cause undefined behaviour.",
  ["inputs"], "all image sizes (in particular those not a multiple of the vector width), layouts and parameters",
  "No SIMD code is run by any test, and an overrun by a few bytes usually does not crash.",
  ["src/simd.rs"], [("chunk loops with raw pointers", "src/simd.rs")], ["AddressSanitizer reports of tone::brightness, tone::saturation, colorspace::rgb_to_grayscale, simd::*"])

p("C33", "Colour and tone operations never touch alpha and treat pixels independently",
  "For every image with alpha, every colour-space conversion, tone adjustment and thresholding returns the alpha of every pixel unchanged (up to the documented type conversion), and its colour channels equal those of the same operation on the image with the alpha channel removed. Except for histogram equalisation, each output pixel depends only on the corresponding input pixel, so the operations commute with any rearrangement of pixels, in particular with changing the image's shape.",
  ["inputs"], "all images with alpha, all alpha patterns, all pointwise operations and parameters, all rearrangements",
  "No test runs any of these operations, with or without alpha.",
  ["src/colorspace.rs", "src/tone.rs", "src/simd.rs", "src/filter/mod.rs", "src/image/mod.rs"], [("map_*_if_alpha", "src/image/mod.rs"), ("alpha masks", "src/simd.rs")], ["colorspace::*", "tone::*", "filter::threshold"])

p("C34", "Invalid arguments are rejected with an error, valid boundary values are accepted",
  "Every operation that documents or checks a restriction on its arguments (ranges of bias, gain, weights and amounts; odd sizes and kernel lengths; equal or grayscale channel layouts; non-negative factors and sigmas; rectangles inside the image) returns an error, and neither a result nor a panic, for every violating value however extreme. It returns a result for every value inside the restriction, its boundary included.",
  ["inputs"], "all argument values around and far beyond each documented restriction, all images",
  "No test passes an invalid argument anywhere.",
  ["src/error/messages.rs", "src/tone.rs", "src/transform.rs", "src/filter/mod.rs", "src/filter/edge.rs", "src/filter/median.rs", "src/filter/bilateral.rs", "src/morphology.rs", "src/util/mod.rs", "src/util/math.rs"], [("check_* helpers", "src/error/messages.rs")], ["Result of every fallible public operation"])

p("C35", "Any chain of operations keeps images well formed and follows a simple model",
  "Starting from any image and applying any sequence of the library's operations with valid arguments, every intermediate result is well formed: the number of samples is width*height*channels and the channel count and alpha flag are those the operation documents. The inputs are never modified by operations returning new images, no step panics, and the exact integer operations of the chain give exactly what a simple model gives.",
  ["histories", "inputs"], "all sequences of operations with valid arguments on all images",
  "Tests never feed the output of one operation into another.",
  ["src/image/mod.rs", "src/transform.rs", "src/colorspace.rs", "src/tone.rs", "src/filter/mod.rs", "src/morphology.rs"], [("output construction in every operation", "all modules")], ["chains of public operations"])

p("C36", "Numeric helpers compute what their names say",
  "The maximum and minimum of three or four values, the matrix-vector product (both forms), 2D coordinates from an index, distance, clamping at zero, sinc, Lanczos, cubic and Gaussian weights and the CIELAB helper functions equal their mathematical definitions to float accuracy for all arguments. The weights are even functions, the cubic weights (defined on [-2, 2]) of any position sum to one, and the CIELAB helpers are continuous, increasing and inverse to each other. Mismatched dimensions or a negative sigma are rejected with an error.",
  ["inputs"], "all finite float arguments and all orderings and ties of them, all matrix sizes",
  "Tests check a handful of values of max, min and one 3x3 product.",
  ["src/util/math.rs", "src/util/mod.rs"], [("helper functions", "src/util/math.rs, src/util/mod.rs")], ["util::*"])

p("C37", "Generated kernels have the documented values; kernel separation is faithful",
  "For every odd size and positive sigma, the generated Gaussian and Laplacian-of-Gaussian kernels equal their formulas at every entry, and the spatial weight matrix of any size holds the Gaussian of the distance to its centre at every entry. A non-zero square kernel that is an outer product of two vectors of small integers is reported as separable, and whenever a kernel is reported as separable the outer product of the two returned vectors equals it to float accuracy. The predefined blur kernels are normalised and agree with each other.",
  ["inputs"], "all odd sizes, sigmas and square kernels",
  NOTEST + "no generated kernel is asserted.",
  ["src/util/mod.rs", "src/util/math.rs", "src/util/constants.rs"], [("generate_gaussian_kernel, generate_log_kernel, generate_spatial_mat", "src/util/mod.rs"), ("separate_kernel", "src/util/math.rs"), ("K_*", "src/util/constants.rs")], ["util::generate_*", "util::separate_kernel", "util::constants"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
