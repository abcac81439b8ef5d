"""Reference definitions for bucketing: what each operation yields, changes and refuses, as a definition to compare by meaning, not text."""
import abc
import dataclasses
import heapq
import itertools
import random
from typing import Dict, Generic, List, Literal, Optional, Sequence, Tuple, Type, TypeVar
import numpy as np
import numpy.typing as npt
import pandas as pd
from . import polymat
from .braid import GNF, NFBase
from .jonesrep import JonesCellRep

class BraidStatBase:

    @staticmethod
    @abc.abstractmethod
    def calculate(rep, braids, images):
        pass

class Stats:

    class NFKind:

        @staticmethod
        def calculate(rep, braids, images):
            return [braid.__class__.__name__ for braid in braids]

    class CanonicalLength:

        @staticmethod
        def calculate(rep, braids, images):
            return [braid.canonical_length() for braid in braids]

    class ProjectiveLength:

        @staticmethod
        def calculate(rep, braids, images):
            return polymat.projlen(images)

    class NonzeroTerms:

        @staticmethod
        def calculate(rep, braids, images):
            return polymat.nz_terms(images)

def batched(iterable, chunk_length):
    assert chunk_length >= 1
    chunk = []
    for x in iterable:
        chunk.append(x)
        if len(chunk) == chunk_length:
            yield chunk
            chunk = []
    if len(chunk) > 0:
        yield chunk

class Bucket:

    @classmethod
    def create(cls, tag, capacity, image_shape, image_dtype):
        return cls(tag=tag, capacity=capacity, braids=[], images=np.zeros(shape=(capacity, *image_shape), dtype=image_dtype), weights=np.zeros(shape=(capacity,), dtype=np.float64), reservoir_count=0, reservoir_weight=0.0, heap=[])

    def size(self):
        return len(self.braids)

    def is_full(self):
        return len(self.braids) == self.capacity

    def is_full(self):
        return len(self.braids) >= self.capacity

    def braids_images(self):
        return (self.braids, self.images[:self.size()])

    def show_reservoir(self, weight):
        self.reservoir_count += 1
        self.reservoir_weight += weight

    def append_braid(self, braid, image, weight):
        if self.size() == self.capacity:
            raise ValueError()
        index = self.size()
        self.braids.append(braid)
        self.images[index] = image
        self.weights[index] = weight
        return index

    def replace_braid(self, index, braid, image, weight):
        if not 0 <= index < self.size():
            raise ValueError()
        self.braids[index] = braid
        self.images[index] = image
        self.weights[index] = weight

class Tracker:

    def __init__(self, rep, bucket_capacity, bucket_braidstats, other_braidstats, reservoir_method, reservoir_weight, rand):
        self.rep = rep
        self.bucket_capacity = bucket_capacity
        assert Stats.CanonicalLength in bucket_braidstats
        assert Stats.ProjectiveLength in bucket_braidstats
        self.bucket_braidstats = list(bucket_braidstats)
        self.other_braidstats = list(other_braidstats)
        self.buckets: Dict[Tuple, Bucket] = {}
        self.reservoir_weight_braidstat = reservoir_weight
        self.reservoir_method = reservoir_method
        self.rand = rand if rand is not None else random.Random()
        self.suffix_cache: Dict[Tuple, Tuple[List[NFBase], npt.NDArray]] = {}

    def discard_bucket(self, tag):
        if tag in self.buckets:
            del self.buckets[tag]

    def braid_image_stats(self, braids, images):
        assert len(images.shape) == 4 and images.shape[0] == len(braids)
        return pd.DataFrame.from_dict(dict(braid=braids, **{stat.name: stat.calculate(self.rep, braids, images) for stat in self.bucket_braidstats + self.other_braidstats}))

    def bucket_stats(self, tag):
        if tag not in self.buckets:
            raise ValueError()
        return self.braid_image_stats(*self.bucket_braids_images(tag))

    def bucket_braids_images(self, tag):
        return self.buckets[tag].braids_images()

    def stats(self):
        df = pd.DataFrame(columns=['bucket', 'count', *[stat.name for stat in self.bucket_braidstats], 'reservoir_count', 'reservoir_weight_avg', 'reservoir_weight_avg_seen'], data=[(bucket.tag, bucket.size(), *tag, bucket.reservoir_count, bucket.weights.sum() / bucket.size(), bucket.reservoir_weight / bucket.reservoir_count) for tag, bucket in self.buckets.items()])
        return df

    def valiate_buckets(self):
        for tag, bucket in self.buckets.items():
            braids, images = bucket.braids_images()
            actual = self.rep.polymat_evaluate_braids_of_same_length(braids)
            if not np.all(images == actual):
                print(f'A braid image is wrong in bucket {tag}')
                for i in range(len(braids)):
                    if not np.all(images[i] == actual[i]):
                        print(f'Braid index {i}, {braids[i]}')
                        print('Actual representation value:')
                        print(actual[i])
                        print('What we have:')
                        print(images[i])
                        return (braids[i], actual[i], images[i])
        return 'All bucket entries are sound.'

    def add_braids_images(self, braids, images):
        assert len(images.shape) == 4 and len(braids) == images.shape[0]
        stats = [stat.calculate(self.rep, braids, images) for stat in self.bucket_braidstats]
        tags = [tuple((stat[i] for stat in stats)) for i in range(len(braids))]
        weights: Sequence[float] = self.reservoir_weight_braidstat.calculate(self.rep, braids, images) if self.reservoir_weight_braidstat is not None else [1.0] * len(braids)
        starts, ends = polymat.proj_starts_ends(images)
        for i in range(len(braids)):
            braid = braids[i]
            image: npt.NDArray = images[i][..., starts[i]:ends[i]]
            tag = tags[i]
            weight = float(weights[i])
            if tag not in self.buckets:
                self.buckets[tag] = Bucket.create(tag, self.bucket_capacity, image.shape, image.dtype)
            bucket = self.buckets[tag]
            bucket.show_reservoir(weight)
            match self.reservoir_method:
                case 'GreedyFirst':
                    if not bucket.is_full():
                        bucket.append_braid(braid, image, weight)
                case 'Uniform':
                    if not bucket.is_full():
                        bucket.append_braid(braid, image, weight)
                    elif self.rand.random() <= bucket.capacity / bucket.reservoir_count:
                        replace = self.rand.randrange(0, bucket.capacity)
                        bucket.replace_braid(replace, braid, image, weight)
                case 'AChao':
                    if not bucket.is_full():
                        bucket.append_braid(braid, image, weight)
                    elif self.rand.random() <= weight / bucket.reservoir_weight:
                        replace = self.rand.randrange(0, bucket.capacity)
                        bucket.replace_braid(replace, braid, image, weight)
                case 'EvictMin':
                    if not bucket.is_full():
                        index = bucket.append_braid(braid, image, weight)
                        heapq.heappush(bucket.heap, (weight, index))
                    else:
                        min_weight, min_idx = bucket.heap[0]
                        if weight > min_weight:
                            heapq.heappop(bucket.heap)
                            heapq.heappush(bucket.heap, (weight, min_idx))
                            bucket.replace_braid(min_idx, braid, image, weight)

    def nf_descendants(self, tag, length):
        bucket_braids, bucket_images = self.buckets[tag].braids_images()
        last_factors = np.array([braid.factors[-1] for braid in bucket_braids])
        sorted_indices = np.argsort(last_factors)
        sorted_braids = [bucket_braids[i] for i in sorted_indices]
        sorted_images = bucket_images[sorted_indices]
        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: sorted_braids[i].factors[-1]):
            index_list = list(indices)
            chunk = slice(min(index_list), max(index_list) + 1)
            braids = sorted_braids[chunk]
            left = sorted_images[chunk]
            last_factor = braids[0].canonical_factor(-1)
            if (length, last_factor) not in self.suffix_cache:
                suffixes = list(braids[0].nf_suffixes(length))
                rights = self.rep.polymat_evaluate_braids_of_same_length(suffixes)
                self.suffix_cache[length, last_factor] = (suffixes, rights)
            else:
                suffixes, rights = self.suffix_cache[length, last_factor]
            images = self.rep.polymat_mul(left[None, ...], rights[:, None, ...])
            images = images.reshape((-1, *images.shape[2:]))
            self.add_braids_images([braid * suffix for suffix in suffixes for braid in braids], images)

    def bootstrap_exhaustive(self, cls, upto_length):
        for length in range(1, upto_length + 1):
            for braids in batched(cls.all_of_length(self.rep.n, length), 10000):
                images = self.rep.polymat_evaluate_braids_of_same_length(braids)
                self.add_braids_images(braids, images)

    def hash_bucket(self, bucket):
        assert bucket in self.buckets
        braids, images = self.bucket_braids_images(bucket)
        hashes = {}
        for i in range(len(braids)):
            h = hash(images[i].data.tobytes())
            if h not in hashes:
                hashes[h] = []
            hashes[h] += [braids[i]]
        return hashes
