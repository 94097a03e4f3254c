// One file of a program that uses the library in objects of static storage duration. It is
// compiled several times, with UNIT = 0, 1, 2; the scenario decides when it is initialised.
#include <new>
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
#include "templates/optional.h"
#include "templates/function.h"
#include "templates/atomic.h"
#include "containers/array.h"
#include "containers/string.h"
#include "containers/list.h"
#include "containers/tree.h"
#include "containers/map.h"
#include "containers/set.h"
#include "math/math.h"
#include "algorithm/sort.h"
#include "regex/regex.h"
#include "life.h"

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

namespace
{
	struct ByValue { int32 operator()(const int64 & a, const int64 & b) const { return (int32)(a > b) - (int32)(a < b); } };
	struct Pool : MallocPooled { Pool() : MallocPooled{4, 256, 16, UNIT & 1} {} };

	// made in this order, destroyed in the reverse one
	String text{UNIT == 0 ? "zero:" : UNIT == 1 ? "one, with a text longer than the others:" : ""};
	Array<int64> numbers;
	List<String> words;
	Map<int64, String> table;
	Set<int64> members;
	BinaryTree<int64, ByValue> tree;
	Optional<String> maybe;
	Function<int64(int64)> callable{[base = String{"0123456789"}](int64 x) { return x + (int64)base.getLength(); }};
	Re::Regex pattern{UNIT == 0 ? "(ab|c)+d?" : UNIT == 1 ? "[^a-f]*x{2}" : "\\w+ \\d"};
	MallocPooled pool{4, 96, 16, UNIT & 1};
	MallocBinned bins{MallocBinned::BucketInfo{1024, 8, 512, 8}, 16};
	Array<int64, Pool> pooled;
	Atomic<int64> counter{5};
	const vec3 up = vec3::up, back{vec3::backward};

	int64 put = 0, start = 0;
	void * block = nullptr, * bin = nullptr;

	struct Mark
	{
		Mark() { sim::HarnessScope h; life::entered(UNIT); }
		~Mark() { sim::HarnessScope h; life::leaving(UNIT); }
	} mark;

	void want(bool ok, const char * what) { if (!ok) { sim::HarnessScope h; life::want(ok, UNIT, what); } }
	void ask(int question, bool answer) { sim::HarnessScope h; life::verdict(question, answer); }

	// of the thread that uses them
	thread_local String own{"mine"};
	thread_local Array<int64> list;
	struct ThreadMark
	{
		int64 n = 0;
		void check()
		{
			int64 sum = 0; for (int64 x : list) sum += x;
			want((int64)list.getCount() == n && sum == n * (n - 1) / 2, "a thread's array");
			want(own.getLength() == (uint64)(4 + 2 * n) && own[0] == 'm', "a thread's string");
		}
		void use() { list.add(n); own += "+1"; ++n; check(); }
		~ThreadMark()
		{
			use();
			const bool a = Re::accept(String{"(a|b)*c"}, String{"abac"});
			ask(50, a);
		}
	};
	thread_local ThreadMark threadMark;
}

extern "C" void CAT(unitThread, UNIT)(int n)
{
	// all of them, in the order of their definition
	want(own.getLength() >= 4, "a thread's string");
	want(list.getCount() == own.getLength() / 2 - 2, "a thread's array");
	for (int i = 0; i < n; ++i) threadMark.use();
}

extern "C" void CAT(unitUse, UNIT)(int n)
{
	if (!start) start = (int64)text.getLength() + 1;
	want(vec3::zero.y == 0.f && vec3::unit.z == 1.f && vec3::right.x == 1.f && vec3::left.x == -1.f && vec3::up.y == 1.f && vec3::down.y == -1.f && vec3::forward.z == 1.f && vec3::backward.z == -1.f, "the predefined vectors");
	want(up.y == 1.f && up.x == 0.f && back.z == -1.f, "copies of predefined vectors");
	for (int i = 0; i < n; ++i, ++put)
	{
		const String word = String::format("%s #%d", "word", (int)put);
		text += "ab";
		numbers.add(put);
		words.pushBack(word);
		table.insert(put, word);
		members.set(put % 5);
		tree.insert(put / 2);
		pooled.add(put * 3);
		maybe = word;
		++counter;
		if (block) pool.free(block);
		block = pool.alloc(64); if (block) *(int64*)block = put;
		if (bin) bins.free(bin);
		bin = bins.alloc(40); if (bin) *(int64*)bin = put;
	}
	int64 k = 0;
	want((int64)text.getLength() == start - 1 + 2 * put && (!put || text[text.getLength() - 1] == 'b'), "a static string");
	want((int64)numbers.getCount() == put, "the size of a static array");
	for (int64 x : numbers) want(x == k++, "an element of a static array");
	want((int64)words.getLength() == put, "the size of a static list");
	k = 0; for (const String & w : words) want(w == String::format("word #%d", (int)k++), "an element of a static list");
	want((int64)table.getCount() == put && (!put || table.has(put - 1)) && !table.has(put), "a static map");
	k = 0; for (int64 x : members) want(x == k++, "an element of a static set");
	want(k == (put < 5 ? put : 5), "the size of a static set");
	k = 0; for (int64 x : tree) { want(x == k / 2, "an element of a static tree"); ++k; }
	want(k == put, "the size of a static tree");
	k = 0; for (int64 x : pooled) want(x == 3 * k++, "an element of a static array with a pool");
	want(k == put, "the size of a static array with a pool");
	want(put ? maybe.hasValue() && *maybe == String::format("word #%d", (int)(put - 1)) : !maybe.hasValue(), "a static optional");
	want(callable(5) == 15, "a static callable");
	want(counter.load() == 5 + put, "a static atomic");
	want(!put || !block || *(int64*)block == put - 1, "a block of a static pool allocator");
	want(!put || !bin || *(int64*)bin == put - 1, "a block of a static binned allocator");
	if (put > 1)
	{
		Array<int64> down; for (int64 i = put; i--; ) down.add(i);
		Sort::quicksort(*down, *down + put, ByValue{});
		for (int64 i = 0; i < put; ++i) want(down[i] == i, "sorting");
	}
	if (!life::asks()) return;
	const bool a = pattern.accept("abcabd"), b = pattern.accept("hxx"), c = pattern.accept("text 7");
	const bool d = Re::accept(String{"(a|b)*c"}, String{"abac"}), e = Re::accept(String{"[\\d_]+"}, String{"1_000"}), f = Re::accept(String{"a{2,3}\\b"}, String{"aaaa"});
	ask(10 * UNIT, a); ask(10 * UNIT + 1, b); ask(10 * UNIT + 2, c); ask(50, d); ask(51, e); ask(52, f);
}
