/* stands for nsimd.h when the CUDA or ROCm side of a module is analysed: the run time is only declared, its calls are events */
#ifndef NSIMD_H
#define NSIMD_H
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <iostream>
typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16; typedef int i32; typedef unsigned int u32; typedef long i64; typedef unsigned long u64; typedef float f32; typedef double f64; typedef i64 nsimd_nat;
namespace nsimd { typedef nsimd_nat nat; }
extern "C" {
#ifdef NSIMD_CUDA
enum cudaError_t { cudaSuccess = 0, cudaErrorMemoryAllocation = 2 };
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
cudaError_t cudaMalloc(void **, size_t); cudaError_t cudaFree(void *); cudaError_t cudaMemset(void *, int, size_t); cudaError_t cudaMemcpy(void *, const void *, size_t, cudaMemcpyKind);
#endif
#ifdef NSIMD_ROCM
enum hipError_t { hipSuccess = 0, hipErrorOutOfMemory = 2 };
enum hipMemcpyKind { hipMemcpyHostToHost = 0, hipMemcpyHostToDevice = 1, hipMemcpyDeviceToHost = 2, hipMemcpyDeviceToDevice = 3, hipMemcpyDefault = 4 };
hipError_t hipMalloc(void **, size_t); hipError_t hipFree(void *); hipError_t hipMemset(void *, int, size_t); hipError_t hipMemcpy(void *, const void *, size_t, hipMemcpyKind);
#endif
}
#endif
