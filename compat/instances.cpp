// Uses of the header-only helpers that the library itself may not instantiate, so that their code is analysed too. Never run.
#include "CexDomain.h"
#include "IntegerTools.h"
#include "MemoryTools.h"
#include "SecureVector.h"

using namespace CEX;
using Tools::IntegerTools;

namespace CexInstances
{
	typedef std::vector<uint8_t> B;
	typedef std::vector<uint32_t> W;
	typedef std::vector<uint64_t> D;
	typedef SecureVector<uint8_t> S;

	template <typename X, typename Y>
	void Memory(const X &A, X &M, Y &O, size_t I, size_t J, size_t N, uint8_t V)
	{
		MemoryTools::AND(A, I, O, J, N);
		MemoryTools::AND128(A, I, O, J);
		MemoryTools::AND256(A, I, O, J);
		MemoryTools::AND512(A, I, O, J);
		MemoryTools::Clear(O, J, N);
		MemoryTools::CLEAR128(O, J);
		MemoryTools::CLEAR256(O, J);
		MemoryTools::CLEAR512(O, J);
		MemoryTools::Copy(A, I, O, J, N);
		MemoryTools::COPY128(A, I, O, J);
		MemoryTools::COPY256(A, I, O, J);
		MemoryTools::COPY512(A, I, O, J);
		MemoryTools::Move(M, I, O, J, N);
		MemoryTools::OR(A, I, O, J, N);
		MemoryTools::OR128(A, I, O, J);
		MemoryTools::OR256(A, I, O, J);
		MemoryTools::OR512(A, I, O, J);
		MemoryTools::SetValue(O, J, N, V);
		MemoryTools::SETVAL128(O, J, V);
		MemoryTools::SETVAL256(O, J, V);
		MemoryTools::SETVAL512(O, J, V);
		MemoryTools::XOR(A, I, O, J, N);
		MemoryTools::XOR128(A, I, O, J);
		MemoryTools::XOR256(A, I, O, J);
		MemoryTools::XOR512(A, I, O, J);
		MemoryTools::XOR1024(A, I, O, J);
	}

	void Bytes(B &A, B &O, S &C, size_t I, size_t J, size_t N, uint8_t* R, const uint8_t* Q)
	{
		Memory(A, A, O, I, J, N, 3);
		Memory(A, A, C, I, J, N, 3);
		MemoryTools::XorPartial(A, I, O, J, N);
		MemoryTools::XorPad(O, 3);
		MemoryTools::XorRaw(Q, R, N);
		MemoryTools::CopyRaw(Q, R, N);
		MemoryTools::COPY128FROMOBJECT(Q, O, J);
		MemoryTools::COPY256FROMOBJECT(Q, O, J);
		MemoryTools::COPY128TOOBJECT(A, I, R);
		MemoryTools::COPY256TOOBJECT(A, I, R);
		MemoryTools::CopyFromObject(Q, O, J, N);
		MemoryTools::CopyToObject(A, I, R, N);
	}

	void Words(W &A, W &O, D &E, D &F, B &G, size_t I, size_t J, size_t N)
	{
		Memory(A, A, O, I, J, N, 3);
		Memory(E, E, F, I, J, N, 3);
		MemoryTools::Copy(A, I, G, J, N);
		MemoryTools::Copy(G, I, A, J, N);
		MemoryTools::Copy(E, I, G, J, N);
		MemoryTools::Copy(G, I, E, J, N);
	}

	void Counters(B &A, B &O, D &E, D &F, std::array<uint64_t, 2> &G, std::array<uint64_t, 2> &H, size_t J, size_t N)
	{
		IntegerTools::BeIncrement8(A);
		IntegerTools::BeIncrement8(A, J, N);
		IntegerTools::BeIncrease8(A, static_cast<uint32_t>(N));
		IntegerTools::BeIncrease8(A, O, static_cast<uint32_t>(N));
		IntegerTools::BeIncrease8(A, O, J, static_cast<uint32_t>(N));
		IntegerTools::BeIncrease8(A, O, J, N, static_cast<uint32_t>(N));
		IntegerTools::LeIncrement(A);
		IntegerTools::LeIncrement(A, N);
		IntegerTools::LeIncrease8(A, static_cast<uint32_t>(N));
		IntegerTools::LeIncrease8(A, O, static_cast<uint32_t>(N));
		IntegerTools::LeIncrease8(A, O, J, static_cast<uint32_t>(N));
		IntegerTools::LeIncrease8(A, O, J, N, static_cast<uint32_t>(N));
		IntegerTools::LeIncrementW(E);
		IntegerTools::LeIncrementW(G);
		IntegerTools::LeIncreaseW(E, N);
		IntegerTools::LeIncreaseW(G, N);
		IntegerTools::LeIncreaseW(E, F, N);
		IntegerTools::LeIncreaseW(G, H, N);
	}

	uint64_t Order(B &A, S &C, W &E, D &F, std::array<uint8_t, 128> &K, std::array<uint32_t, 16> &G, std::array<uint64_t, 16> &H, size_t I, size_t J, size_t N, uint8_t* R, const uint8_t* Q)
	{
		IntegerTools::BlockToBe(A, I, E, J, N);
		IntegerTools::BeToBlock(E, I, A, J, N);
		IntegerTools::BlockToLe(A, I, E, J, N);
		IntegerTools::LeToBlock(E, I, A, J, N);
		IntegerTools::BlockToBe(A, I, F, J, N);
		IntegerTools::BeToBlock(F, I, A, J, N);
		IntegerTools::BlockToLe(A, I, F, J, N);
		IntegerTools::LeToBlock(F, I, A, J, N);
		IntegerTools::Be16ToBytes(static_cast<uint16_t>(N), A, J);
		IntegerTools::Be32ToBytes(static_cast<uint32_t>(N), A, J);
		IntegerTools::Be64ToBytes(N, A, J);
		IntegerTools::Le16ToBytes(static_cast<uint16_t>(N), A, J);
		IntegerTools::Le32ToBytes(static_cast<uint32_t>(N), A, J);
		IntegerTools::Le64ToBytes(N, A, J);
		A = IntegerTools::Be16ToBytes<B>(static_cast<uint16_t>(N));
		A = IntegerTools::Be32ToBytes<B>(static_cast<uint32_t>(N));
		A = IntegerTools::Be64ToBytes<B>(N);
		A = IntegerTools::Le16ToBytes<B>(static_cast<uint16_t>(N));
		A = IntegerTools::Le32ToBytes<B>(static_cast<uint32_t>(N));
		A = IntegerTools::Le64ToBytes<B>(N);
		IntegerTools::Be16ToBytesRaw(static_cast<uint16_t>(N), R);
		IntegerTools::Be32ToBytesRaw(static_cast<uint32_t>(N), R);
		IntegerTools::Be64ToBytesRaw(N, R);
		IntegerTools::Le16ToBytesRaw(static_cast<uint16_t>(N), R);
		IntegerTools::Le32ToBytesRaw(static_cast<uint32_t>(N), R);
		IntegerTools::Le64ToBytesRaw(N, R);
		IntegerTools::BeUL256ToBlock(G, I, A, J);
		IntegerTools::BeULL512ToBlock(H, I, A, J);
		IntegerTools::LeUL256ToBlock(G, I, A, J);
		IntegerTools::LeULL256ToBlock(H, I, A, J);
		IntegerTools::LeULL512ToBlock(H, I, A, J);
		IntegerTools::LeULL1024ToBlock(H, I, A, J);
		IntegerTools::LeBytesToUL512(A, I, G, J);
		IntegerTools::LeBytesToULL256(A, I, H, J);
		IntegerTools::LeBytesToULL512(A, I, H, J);
		IntegerTools::LeBytesToULL1024(A, I, H, J);
		return IntegerTools::BeBytesTo16(A, I) + IntegerTools::BeBytesTo32(A, I) + IntegerTools::BeBytesTo64(A, I) + IntegerTools::LeBytesTo16(A, I) + IntegerTools::LeBytesTo32(A, I) + IntegerTools::LeBytesTo64(A, I) +
			IntegerTools::BeBytesTo16Raw(Q) + IntegerTools::BeBytesTo32Raw(Q) + IntegerTools::BeBytesTo64Raw(Q) + IntegerTools::LeBytesTo16Raw(Q) + IntegerTools::LeBytesTo32Raw(Q) + IntegerTools::LeBytesTo64Raw(Q) +
			IntegerTools::LeBytesTo32(A, I, N) + IntegerTools::LeBytesTo64(A, I, N) + IntegerTools::LeBytesTo32(C, I) + IntegerTools::LeBytesTo32(K, I);
	}

	template <typename T>
	T Masks(T X, T Y, T M, std::vector<T> &A, std::vector<T> &C, const T* P, const T* Q, T* R, size_t N)
	{
		IntegerTools::ConditionalCopy(X, R, P, Q, N);
		IntegerTools::ConditionalZeroMem(X, A, N);
		return IntegerTools::CMax(X, Y) + IntegerTools::CMin(X, Y) + IntegerTools::ExpandMask(X) + IntegerTools::ExpandTopBit(X) + IntegerTools::IsEqual(X, Y) + IntegerTools::IsLess(X, Y) + IntegerTools::IsLte(X, Y) +
			IntegerTools::IsZero(X) + IntegerTools::Select(M, X, Y) + IntegerTools::Min(X, Y) + IntegerTools::Max(X, Y) + static_cast<T>(IntegerTools::DiffMask(A, C, N));
	}

	uint64_t Values(B &A, B &C, std::vector<uint16_t> &A2, W &A4, D &A8, uint8_t* R1, uint16_t* R2, uint32_t* R4, uint64_t* R8, size_t I, size_t J, size_t N, uint8_t V)
	{
		IntegerTools::CMov(A, I, C, J, N, V);
		IntegerTools::CMovRaw(R1, R1 + N, N, V);
		uint64_t r = Masks<uint8_t>(V, V, V, A, C, R1, R1, R1, N) + Masks<uint16_t>(V, V, V, A2, A2, R2, R2, R2, N) + Masks<uint32_t>(V, V, V, A4, A4, R4, R4, R4, N) + Masks<uint64_t>(V, V, V, A8, A8, R8, R8, R8, N);
		return r + IntegerTools::RotL32(V, V) + IntegerTools::RotL64(N, V) + IntegerTools::RotR32(V, V) + IntegerTools::RotR64(N, V) + IntegerTools::RotFL32(V, V) + IntegerTools::RotFL64(N, V) + IntegerTools::RotFR32(V, V) +
			IntegerTools::RotFR64(N, V) + IntegerTools::Compare(A, I, C, J, N) + IntegerTools::Verify(A, C, N) + IntegerTools::Verify(A, I, C, J, N) + IntegerTools::VerifyRaw(R1, R1 + N, N);
	}
}
